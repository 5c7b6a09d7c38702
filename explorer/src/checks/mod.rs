use crate::Tasks;

mod addrtext;
mod arith;
mod cli;
mod colours;
mod confine;
mod derange;
mod enumerate;
pub mod faults;
mod messages;
mod minimize;
mod notation;
mod pipeline;
mod relations;
mod resize;
mod show;
mod split;
mod totality;

pub fn build(id: &str, t: &mut Tasks) -> bool {
    match id {
        "C01" => enumerate::c01(t),
        "C02" => minimize::c02(t),
        "C03" => minimize::c03(t),
        "C04" => derange::c04(t),
        "C05" => split::c05(t),
        "C06" => split::c06(t),
        "C07" => resize::c07(t),
        "C08" => resize::c08(t),
        "C09" => show::c09(t),
        "C10" => show::c10(t),
        "C11" => addrtext::c11(t),
        "C12" => addrtext::c12(t),
        "C13" => notation::c13(t),
        "C14" => arith::c14(t),
        "C15" => arith::c15(t),
        "C16" => totality::c16(t),
        "C17" => faults::c17(t),
        "C18" => cli::c18(t),
        "C19" => arith::c19(t),
        "C20" => pipeline::c20(t),
        "C21" => faults::c21(t),
        "C23" => show::c23(t),
        "C24" => enumerate::c24(t),
        "C22" => cli::c22(t),
        "C25" => relations::c25(t),
        "C26" => relations::c26(t),
        "C27" => relations::c27(t),
        "C28" => confine::c28(t),
        "C29" => relations::c29(t),
        "C30" => colours::c30(t),
        "C31" => messages::c31(t),
        "C32" => messages::c32(t),
        _ => return false,
    }
    true
}
