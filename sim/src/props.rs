//! The properties, by id
use crate::ctx::{Ctx, R};

pub const ALL: &[&str] =
    &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"];

pub fn find(id: &str) -> Option<&'static str> {
    ALL.iter().copied().find(|x| *x == id)
}

pub fn run(prop: &str, c: &Ctx) -> R {
    match prop {
        "C01" => crate::load::c01(c),
        "C02" => crate::load::c02(c),
        "C03" => crate::load::c03(c),
        "C04" => crate::load::c04(c),
        "C05" => crate::damage::c05(c),
        "C06" => crate::index::c06(c),
        "C07" => crate::pairs::c07(c),
        "C08" => crate::typed::c08(c),
        "C09" => crate::conc::c09(c),
        "C10" => crate::cli::c10(c),
        "C11" => crate::cli::c11(c),
        "C12" => crate::cli::c12(c),
        "C13" => crate::values::c13(c),
        "C14" => crate::trees::c14(c),
        "C15" => crate::refuse::c15(c),
        _ => unreachable!(),
    }
}
