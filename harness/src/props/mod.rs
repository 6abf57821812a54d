use crate::runner::Prop;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
#[cfg(feature = "extra")]
mod c29;
mod c30;
mod c31;

pub use c01::first_diff;
pub use c18::{body, num, seq};

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut all = vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c21::prop(), c22::prop(), c23::prop(), c24::prop(), c25::prop(), c26::prop(), c27::prop(), c28::prop()];
    #[cfg(feature = "extra")]
    all.push(c29::prop());
    all.push(c30::prop());
    all.push(c31::prop());
    all
}
