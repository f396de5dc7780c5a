//! Runs cases. See `check.py` for the protocol.
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use crate::run::*;
use crate::src::{mix, Src};

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn list(xs: &[u64]) -> String {
    let v: Vec<String> = xs.iter().map(|x| x.to_string()).collect();
    v.join(" ")
}
/// Errors of the file system are not the case's fault.
fn io<T>(r: std::io::Result<T>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => std::process::exit(9),
    }
}
fn case_seed(prop: &str, seed: u64, index: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h.wrapping_add(index))
}
fn log_json(o: &Outcome) -> String {
    let l: Vec<String> = o.info.log.iter().take(40).map(|x| esc(x)).collect();
    format!("[{}]", l.join(", "))
}

pub fn worker_main() {
    if std::env::var("VH_LOUD").is_err() {
        silence();
    }
    if std::env::var("VH_TRACE").is_ok() {
        crate::track::set_trace();
    }
    let a: Vec<String> = std::env::args().collect();
    let n = |k: usize| a[k].parse::<u64>().expect("a number");
    match a[1].as_str() {
        // run PROP SEED START END PROGRESS OUT HASHES DIGESTS
        "run" => {
            let prop = &a[2];
            let (seed, start, end) = (n(3), n(4), n(5));
            let progress = io(std::fs::File::create(&a[6]));
            let mut hashes = HashSet::new();
            let mut digests: Vec<u8> = Vec::new();
            let mut labels: Vec<(&'static str, u64)> = Vec::new();
            let mut samples: Vec<String> = Vec::new();
            let (mut evals, mut nontrivial, mut longest) = (0u64, 0u64, 0usize);
            let mut fail = String::from("null");
            for i in start..end {
                io(progress.write_all_at(&i.to_le_bytes(), 0));
                let mut s = Src::random(case_seed(prop, seed, i));
                let o = run_case(prop, &mut s);
                evals += 1;
                longest = longest.max(o.choices.len());
                digests.extend(o.digest.to_le_bytes());
                for l in &o.info.labels {
                    match labels.iter_mut().find(|x| x.0 == *l) {
                        Some(x) => x.1 += 1,
                        None => labels.push((l, 1)),
                    }
                }
                match &o.verdict {
                    Verdict::Pass => {}
                    Verdict::Fail(m) | Verdict::Broken(m) => {
                        let kind = if matches!(o.verdict, Verdict::Fail(_)) { "fail" } else { "broken" };
                        fail = format!(
                            "{{\"kind\": \"{kind}\", \"index\": {i}, \"message\": {}, \"choices\": \"{}\", \"log\": {}}}",
                            esc(m),
                            list(&o.choices),
                            log_json(&o)
                        );
                        break;
                    }
                }
                if o.info.nontrivial {
                    nontrivial += 1;
                    let mut h = 0;
                    for c in &o.choices {
                        h = mix(h ^ c);
                    }
                    hashes.insert(h);
                    // A few samples, spread over the run.
                    if samples.len() < 3 && i >= start + (end - start) / 3 * samples.len() as u64 {
                        let l: Vec<String> = o.info.log.iter().take(12).map(|x| esc(x)).collect();
                        let more = o.info.log.len().saturating_sub(12);
                        samples.push(format!("{{\"index\": {i}, \"steps\": [{}], \"more_steps\": {more}}}", l.join(", ")));
                    }
                }
            }
            let l: Vec<String> = labels.iter().map(|x| format!("{}: {}", esc(x.0), x.1)).collect();
            let mut hb: Vec<u8> = Vec::new();
            for h in &hashes {
                hb.extend(h.to_le_bytes());
            }
            io(std::fs::write(&a[8], hb));
            io(std::fs::write(&a[9], digests));
            io(std::fs::write(
                &a[7],
                format!(
                    "{{\"evaluations\": {evals}, \"nontrivial\": {nontrivial}, \"longest\": {longest}, \"labels\": {{{}}}, \"samples\": [{}], \"fail\": {fail}}}",
                    l.join(", "),
                    samples.join(", ")
                ),
            ));
        }
        // rec PROP SEED INDEX CHOICES: writes each choice before it is used.
        "rec" => {
            let mut s = Src::random(case_seed(&a[2], n(3), n(4)));
            s.out = Some(io(std::fs::File::create(&a[5])));
            let _ = run_case(&a[2], &mut s);
        }
        // try PROP: reads lists of choices, answers "pass", "fail MESSAGE" or "broken MESSAGE", with
        // the choices used and the digest.
        "try" => {
            for line in std::io::stdin().lock().lines() {
                let c: Vec<u64> = io(line).split_whitespace().map(|x| x.parse().unwrap()).collect();
                let o = run_case(&a[2], &mut Src::replay(c));
                let m = match &o.verdict {
                    Verdict::Pass => ("pass", String::new()),
                    Verdict::Fail(m) => ("fail", m.clone()),
                    Verdict::Broken(m) => ("broken", m.clone()),
                };
                println!(
                    "{{\"verdict\": \"{}\", \"message\": {}, \"choices\": \"{}\", \"digest\": {}, \"log\": {}}}",
                    m.0,
                    esc(&m.1),
                    list(&o.choices),
                    o.digest,
                    log_json(&o)
                );
                io(std::io::stdout().flush());
            }
        }
        // miri PROP SEED START END
        "miri" => {
            for i in n(4)..n(5) {
                println!("case {i}");
                let mut s = Src::random(case_seed(&a[2], n(3), i));
                let o = run_case(&a[2], &mut s);
                match &o.verdict {
                    Verdict::Pass => {}
                    Verdict::Fail(m) => println!("fail {}", esc(m)),
                    Verdict::Broken(m) => println!("broken {}", esc(m)),
                }
                println!("done {i} {} {}", o.info.nontrivial as u8, esc(&o.info.log.join("; ")));
            }
        }
        x => panic!("unknown command {x}"),
    }
}
