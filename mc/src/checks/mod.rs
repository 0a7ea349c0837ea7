use crate::engine::*;

pub mod asm;
pub mod cst;
pub mod ex;
pub mod lit;
pub mod pp;
pub mod ppcmp;
pub mod rel;
pub mod res;
pub mod st;
pub mod strs;
pub mod tot;
pub mod typ;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C22", "C23", "C24"];

pub fn spaces(id: &str, tier: Tier) -> Vec<Space> {
  match id {
    "C01" => pp::c01(tier),
    "C02" => pp::c02(tier),
    "C03" => pp::c03(tier),
    "C04" => pp::c04(tier),
    "C05" => pp::c05(tier),
    "C06" => pp::c06(tier),
    "C07" => lit::c07(tier),
    "C08" => lit::c08(tier),
    "C09" => strs::c09(tier),
    "C10" => cst::c10(tier),
    "C11" => cst::c11(tier),
    "C12" => ex::c12(tier),
    "C13" => tot::c13(tier),
    "C14" => tot::c14(tier),
    "C15" => res::c15(tier),
    "C16" => typ::c16(tier),
    "C17" => st::c17(tier),
    "C18" => st::c18(tier),
    "C19" => asm::c19(tier),
    "C20" => rel::c20(tier),
    "C21" => rel::c21(tier),
    "C22" => rel::c22(tier),
    "C23" => lit::c23(tier),
    "C24" => res::c24(tier),
    _ => vec![],
  }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => pp::assumptions(id),
    "C09" => strs::assumptions(id),
    "C10" | "C11" => cst::assumptions(id),
    "C12" => ex::assumptions(id),
    "C15" | "C24" => res::assumptions(id),
    "C16" => typ::assumptions(id),
    "C19" => asm::assumptions(id),
    "C17" | "C18" => st::assumptions(id),
    "C20" | "C21" | "C22" => rel::assumptions(id),
    "C13" | "C14" => tot::assumptions(id),
    "C07" | "C08" | "C23" => lit::assumptions(id),
    _ => vec![],
  }
}
