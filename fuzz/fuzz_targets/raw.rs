//! NTV_FUZZ names the property whose judgement of raw inputs is the oracle.
#![no_main]
use libfuzzer_sys::fuzz_target;
use ntv::props::*;
use ntv::rawfuzz::judge;
use ntv::runner::{Obs, Prop};
use std::sync::OnceLock;

fn one<P: Prop>(p: &P, data: &[u8]) {
    if let Some(Err(m)) = judge(p, data, &mut Obs::default()) {
        eprintln!("property {} broken: {m}", P::ID);
        std::process::abort();
    }
}

static ID: OnceLock<String> = OnceLock::new();

fuzz_target!(init: { ntv::runner::install_hook(); }, |data: &[u8]| {
    match ID.get_or_init(|| std::env::var("NTV_FUZZ").unwrap_or_default()).as_str() {
        "P01" => one(&p01::P01, data),
        "P12" => one(&p12::P12, data),
        "P13" => one(&p13::P13, data),
        "P15" => one(&p15::P15, data),
        "P17" => one(&p17::P17, data),
        other => panic!("NTV_FUZZ={other}?"),
    }
});
