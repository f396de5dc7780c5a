//! Running cases: set-up, verdict, classification.

use crate::cases::{Info, CASES};
use crate::src::Src;
use crate::state::caught;
use crate::track::{self, Fail};
use crate::alloc;

pub enum Verdict {
    Pass,
    Fail(String),
    /// Something is wrong with the harness itself, or it cannot tell.
    Broken(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub info: Info,
    pub digest: u64,
    pub choices: Vec<u64>,
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("unexpected panic: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("unexpected panic: {s}")
    } else if p.is::<track::Injected>() {
        "an injected panic was not passed on where it happened".to_string()
    } else {
        "unexpected panic".to_string()
    }
}

pub fn silence() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn once(prop: &str, f: fn(&mut Src, &mut Info), s: &mut Src, fill: u8) -> (Result<(), Box<dyn std::any::Any + Send>>, Info, u64) {
    let mut info = Info::default();
    alloc::set_fill(fill);
    track::begin_case();
    alloc::begin_case();
    let r = caught(|| {
        f(s, &mut info);
        // Memory errors are judged by the properties they belong to.
        if matches!(prop, "C06" | "C12" | "C14" | "C13") {
            check!(info.lost || alloc::live() == 0 || cfg!(any(miri, feature = "plain-alloc")), "{} blocks are still allocated after all containers are dropped", alloc::live());
            alloc::flush();
            if let Some(m) = alloc::take_flag() {
                fail!("{m}");
            }
        }
        if matches!(prop, "C05" | "C12" | "C14" | "C21" | "C15") {
            if let Some(m) = track::take_flag() {
                fail!("{m}");
            }
        }
    });
    alloc::end_case();
    track::disarm();
    let d = track::digest();
    // Blocks of earlier cases must not disturb this one's verdict.
    alloc::flush();
    alloc::take_flag();
    (r, info, d)
}

pub fn run_case(prop: &str, s: &mut Src) -> Outcome {
    let f = match CASES.iter().find(|c| c.0 == prop) {
        Some(c) => c.1,
        None => panic!("no cases for {prop}"),
    };
    let (r, info, digest) = once(prop, f, s, 0xA5);
    let choices = s.take_rec();
    let mut verdict = match r {
        Ok(()) => Verdict::Pass,
        // Judged by comparison between builds.
        Err(_) if prop == "C22" => Verdict::Pass,
        Err(p) => match p.downcast_ref::<Fail>() {
            Some(f) if f.0.starts_with("harness") => Verdict::Broken(f.0.clone()),
            Some(f) => Verdict::Fail(f.0.clone()),
            None => Verdict::Fail(panic_text(&p)),
        },
    };
    if prop == "C06" && matches!(verdict, Verdict::Pass) && cfg!(not(any(miri, feature = "plain-alloc"))) {
        // Nothing observable may depend on what fresh memory contains.
        let mut s2 = Src::replay(choices.clone());
        let (r, _, d2) = once(prop, f, &mut s2, 0x00);
        if r.is_err() || d2 != digest {
            verdict = Verdict::Fail("the results depend on the contents of fresh memory".into());
        }
    }
    Outcome { verdict, info, digest, choices }
}
