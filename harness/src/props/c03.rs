//! C03: offsets, alignment and packing for user-defined types.
use crate::engine::*;
use crate::runner::*;
use crate::typemodel::LONG;
use crate::types_gen::ROOTS;

fn types(c: &mut Ctx) -> R {
    let i = c.src.usize(ROOTS.len());
    c.label(ROOTS[i].0);
    ROOTS[i].1(c)
}

fn long(c: &mut Ctx) -> R {
    let i = c.src.usize(LONG.len());
    LONG[i](c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "a value with at least two pointers, arrays or byte buffers that hold something",
        assumptions: &[
            "the 280 root types of types_gen.rs (random compositions with every attribute) stand for the types a user can define",
            "a type without a declared alignment has its Rust alignment; arrays hold elements of one size",
        ],
        subs: vec![
            Sub { name: "types", quick: 2_400_000, thorough: 20_000_000, enumerate: ROOTS.len() as u64, f: types },
            Sub { name: "long", quick: 600, thorough: 20_000, enumerate: LONG.len() as u64, f: long },
        ],
        probes: vec![],
    }
}
