#![no_main]
//! Coverage guided search over choice tapes: the input is the tape of one case of the property
//! named by PF_FUZZ.

use libfuzzer_sys::fuzz_target;
use pf_harness::engine;
use pf_harness::props::ALL;
use std::sync::OnceLock;

static PROP: OnceLock<&'static engine::Prop> = OnceLock::new();

fuzz_target!(|data: &[u8]| {
    let prop = PROP.get_or_init(|| {
        // libFuzzer's hook ends the process at any panic, even one that is expected.
        engine::install_panic_hook();
        let id = std::env::var("PF_FUZZ").expect("PF_FUZZ");
        ALL.iter().find(|p| p.id == id).expect("property")
    });
    engine::fuzz_entry(prop, data);
});
