//! Coverage-guided exploration: the bytes that libFuzzer makes up stand for choices.
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use vh::run::{run_case, Verdict};
use vh::src::Src;

static PROP: OnceLock<String> = OnceLock::new();

fuzz_target!(init: {
    let _ = PROP.set(std::env::var("VH_PROP").expect("VH_PROP"));
    vh::run::silence();
}, |data: &[u8]| {
    let mut s = Src::bytes(data.to_vec());
    if let Ok(f) = std::env::var("VH_REC") {
        // Writes each choice before it is used.
        s.out = std::fs::File::create(f).ok();
    }
    let o = run_case(PROP.get().unwrap(), &mut s);
    match o.verdict {
        Verdict::Pass => {}
        _ => std::process::abort(),
    }
});
