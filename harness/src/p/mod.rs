//! The checks, one per property.
use crate::ctx::Ctx;

pub mod build;
mod conc;
mod crypto;
mod flow;
mod hist;
mod http;
mod mdoc;
mod params;
mod query;
mod robust;
mod wallet;
mod wire;

pub fn find(id: &str) -> Option<fn(&mut Ctx)> {
    Some(match id {
        "C01" => wallet::c01,
        "C02" => crypto::c02,
        "C03" => crypto::c03,
        "C04" => crypto::c04,
        "C05" => wallet::c05,
        "C06" => wallet::c06,
        "C07" => params::c07,
        "C08" => wallet::c08,
        "C09" => wire::c09,
        "C10" => wallet::c10,
        "C11" => wire::c11,
        "C12" => build::c12,
        "C13" => hist::c13,
        "C14" => conc::c14,
        "C15" => hist::c15,
        "C16" => mdoc::c16,
        "C17" => mdoc::c17,
        "C18" => query::c18,
        "C19" => params::c19,
        "C20" => params::c20,
        "C21" => params::c21,
        "C22" => flow::c22,
        "C24" => query::c24,
        "C25" => http::c25,
        "C26" => robust::c26,
        "C27" => build::c27,
        "C28" => hist::c28,
        "C29" => params::c29,
        "C30" => crypto::c30,
        _ => return None,
    })
}
