use crate::report::Check;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c07h2;
mod c08;
mod c08h2;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c20;
mod c16;
mod c17;
mod c18;
mod c19;
mod c21;
mod c26;
mod c22;
mod c27;
mod c28;
mod c23;
mod c24;
mod c29;
mod c31;
mod c32;
#[cfg(feature = "ffi")]
mod c25;
pub fn all() -> Vec<Check> {
    #[allow(unused_mut)]
    let mut v = vec![c01::CHECK, c02::CHECK, c03::CHECK, c04::CHECK, c05::CHECK, c05::CHECK30, c06::CHECK, c07::CHECK, c08::CHECK, c09::CHECK, c10::CHECK, c11::CHECK, c12::CHECK, c13::CHECK, c14::CHECK, c15::CHECK, c20::CHECK, c16::CHECK, c17::CHECK, c18::CHECK, c19::CHECK, c21::CHECK, c26::CHECK, c22::CHECK, c27::CHECK, c28::CHECK, c29::CHECK, c31::CHECK, c32::CHECK, c23::CHECK, c24::CHECK];
    #[cfg(feature = "ffi")]
    v.push(c25::CHECK);
    v
}
