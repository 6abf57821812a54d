//! Global allocator that can bound what library code requests.
//!
//! While a guard is armed on a thread, a single request above `SINGLE` bytes or a total of live
//! bytes above `TOTAL` ends the process with exit code 77 after writing one line to stderr.
//! The parent process maps that exit code to a failed case (deterministic: no timing involved).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guarded;

#[derive(Clone, Copy)]
struct State {
    armed: bool,
    single: usize,
    total: usize,
    live: usize,
    max_single: usize,
}

thread_local! {
    static STATE: Cell<State> = const { Cell::new(State { armed: false, single: 0, total: 0, live: 0, max_single: 0 }) };
}

pub const EXIT_ALLOC: i32 = 77;

#[inline]
fn on_alloc(size: usize) {
    let _ = STATE.try_with(|s| {
        let mut st = s.get();
        if st.armed {
            st.live += size;
            if size > st.max_single {
                st.max_single = size;
            }
            if size > st.single || st.live > st.total {
                st.armed = false;
                s.set(st);
                die(size, st.live);
            }
            s.set(st);
        }
    });
}

#[inline]
fn on_free(size: usize) {
    let _ = STATE.try_with(|s| {
        let mut st = s.get();
        if st.armed {
            st.live = st.live.saturating_sub(size);
            s.set(st);
        }
    });
}

#[cold]
fn die(size: usize, live: usize) -> ! {
    // No allocation here.
    let mut buf = [0u8; 96];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for b in s {
            if n < buf.len() {
                buf[n] = *b;
                n += 1;
            }
        }
    };
    put(b"ALLOC-LIMIT request=");
    put_num(&mut put, size);
    put(b" live=");
    put_num(&mut put, live);
    put(b"\n");
    unsafe {
        libc::write(2, buf.as_ptr() as *const libc::c_void, n);
        libc::_exit(EXIT_ALLOC);
    }
}

fn put_num(put: &mut dyn FnMut(&[u8]), mut v: usize) {
    let mut d = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        d[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    put(&d[i..]);
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_free(l.size());
        on_alloc(n);
        System.realloc(p, l, n)
    }
}

/// Run `f` with the limits armed. Returns the result and the largest single request.
pub fn guarded<T>(single: usize, total: usize, f: impl FnOnce() -> T) -> (T, usize) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            STATE.with(|s| {
                let mut st = s.get();
                st.armed = false;
                s.set(st);
            })
        }
    }
    STATE.with(|s| s.set(State { armed: true, single, total, live: 0, max_single: 0 }));
    let reset = Reset;
    let r = f();
    drop(reset);
    (r, STATE.with(|s| s.get().max_single))
}
