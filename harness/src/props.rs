use crate::cx::Cx;

pub fn find(id: &str) -> Option<fn(&mut Cx)> {
    Some(match id {
        "C01" => crate::p_bdd::c01,
        "C02" => crate::p_gc::c02,
        "C03" => crate::p_zdd::c03,
        "C04" => crate::p_gc::c04,
        "C05" => crate::p_mdd::c05,
        "C06" => crate::p_mdd::c06,
        "C07" => crate::p_mdd::c07,
        "C08" => crate::p_gc::c08,
        "C09" => crate::p_bss::c09,
        "C10" => crate::p_bss::c10,
        "C11" => crate::p_bss::c11,
        "C12" => crate::p_mss::c12,
        "C13" => crate::p_bss::c13,
        "C14" => crate::p_mss::c14,
        "C15" => crate::p_mss::c15,
        "C16" => crate::p_mss::c16,
        "C17" => crate::p_mss::c17,
        "C18" => crate::p_mss::c18,
        "C19" => crate::p_misc::c19,
        "C20" => crate::p_gc::c20,
        "C21" => crate::p_misc::c21,
        "C22" => crate::p_misc::c22,
        _ => return None,
    })
}
