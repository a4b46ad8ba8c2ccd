pub mod anykey;
pub mod drbg;
pub mod effects;
pub mod faults;
pub mod history;
pub mod kem;
pub mod memory;
pub mod shape;
pub mod small;
pub mod value;
use crate::explore::Explorer;

pub fn run(ex: &mut Explorer) -> bool {
    match ex.prop.clone().as_str() {
        "C01" => kem::c01(ex),
        "C02" => kem::c02(ex),
        "C03" => kem::c03(ex),
        "C04" => kem::c04(ex),
        "C05" => kem::c05(ex),
        "C06" => kem::c06(ex),
        "C07" => faults::c07(ex),
        "C08" => faults::c08(ex),
        "C09" => drbg::c09(ex),
        "C10" => history::c10(ex),
        "C11" => shape::c11(ex),
        "C12" => shape::c12(ex),
        "C13" => shape::c13(ex),
        "C17" => effects::c17(ex),
        "C18" => memory::c18(ex),
        "C19" => value::c19(ex),
        "C20" => anykey::c20(ex),
        "C15" => kem::c15(ex),
        _ => return false,
    }
    true
}
