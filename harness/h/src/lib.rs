//! Property harnesses over the real prima_undine code.
#[macro_use]
pub mod vx;
pub mod util;
pub mod ops;
#[cfg(any(feature = "c12", feature = "c13"))]
pub mod tree;
#[cfg(any(feature = "c14", feature = "c16"))]
pub mod rng;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;

pub type Entry = (&'static str, fn(u32), fn() -> u32);
pub fn tables() -> Vec<&'static [Entry]> {
    vec![
        #[cfg(feature = "c01")]
        c01::TABLE,
        #[cfg(feature = "c02")]
        c02::TABLE,
        #[cfg(feature = "c03")]
        c03::TABLE,
        #[cfg(feature = "c04")]
        c04::TABLE,
        #[cfg(feature = "c05")]
        c05::TABLE,
        #[cfg(feature = "c06")]
        c06::TABLE,
        #[cfg(feature = "c07")]
        c07::TABLE,
        #[cfg(feature = "c08")]
        c08::TABLE,
        #[cfg(feature = "c09")]
        c09::TABLE,
        #[cfg(feature = "c10")]
        c10::TABLE,
        #[cfg(feature = "c11")]
        c11::TABLE,
        #[cfg(feature = "c12")]
        c12::TABLE,
        #[cfg(feature = "c13")]
        c13::TABLE,
        #[cfg(feature = "c14")]
        c14::TABLE,
        #[cfg(feature = "c15")]
        c15::TABLE,
        #[cfg(feature = "c16")]
        c16::TABLE,
        #[cfg(feature = "c17")]
        c17::TABLE,
    ]
}
