//! The properties. Each module states one as executable checks.

use crate::run::Ctx;

mod c01;
mod c02;
mod c03;
pub mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;

pub const ALL: &[(&str, fn(Ctx) -> i32)] = &[
    ("C01", c01::run),
    ("C02", c02::run),
    ("C03", c03::run),
    ("C04", c04::run),
    ("C05", c05::run),
    ("C06", c06::run),
    ("C07", c07::run),
    ("C08", c08::run),
    ("C09", c09::run),
    ("C10", c10::run),
    ("C11", c11::run),
    ("C12", c12::run),
    ("C13", c13::run),
    ("C14", c14::run),
    ("C15", c15::run),
    ("C16", c16::run),
    ("C17", c17::run),
    ("C18", c18::run),
    ("C19", c19::run),
];

pub const BASE: &[&str] = &[
    "library built in the dev profile at opt-level 3 with debug assertions and overflow checks, as the repository's own test build does",
    "in-memory signals are finite; files are any bytes",
];
