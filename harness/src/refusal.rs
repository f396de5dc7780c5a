//! Refused allocations (C13). Each case runs in a child process, which may abort.

use crate::alloc::{arm_failure, disarm_failure};
use crate::modeled::*;
use crate::src::Src;
use crate::state::caught;
use crate::track::{reg, Fail};
use crate::value::V;
use varlen::prelude::*;
use varlen::seq::{IndexableSeq, Indexing};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut core::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, buf: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}

const SIGABRT: i32 = 6;
const SIGKILL: i32 = 9;
const SIGALRM: i32 = 14;

/// Runs `f` in a child. It must finish, possibly after a caught panic, or reach the standard
/// handler for failed allocations.
fn isolated(f: impl FnOnce()) {
    unsafe {
        let mut fds = [0i32; 2];
        check!(pipe(fds.as_mut_ptr()) == 0, "harness: pipe");
        let pid = fork();
        check!(pid >= 0, "harness: fork");
        if pid == 0 {
            close(fds[0]);
            dup2(fds[1], 2);
            alarm(20);
            let r = caught(f);
            disarm_failure();
            let code = match r {
                Ok(()) => 0,
                Err(p) => {
                    let m = match p.downcast_ref::<Fail>() {
                        Some(f) => f.0.clone(),
                        None => crate::run::panic_text(&p),
                    };
                    write(2, m.as_ptr() as *const _, m.len());
                    3
                }
            };
            _exit(code);
        }
        close(fds[1]);
        let mut buf = [0u8; 4096];
        let mut n = 0;
        while n < buf.len() {
            let k = read(fds[0], buf.as_mut_ptr().add(n) as *mut _, buf.len() - n);
            if k <= 0 {
                break;
            }
            n += k as usize;
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let text = String::from_utf8_lossy(&buf[..n]);
        let sig = st & 0x7f;
        if sig == 0 {
            match (st >> 8) & 0xff {
                0 => {}
                3 => fail!("{text}"),
                c => fail!("harness: child exits with {c}: {text}"),
            }
        } else if sig == SIGABRT {
            check!(text.contains("memory allocation of") && text.contains("failed"), "aborted other than by the allocation error handler: {text}");
        } else if sig == SIGKILL || sig == SIGALRM {
            // Out of memory or time: says nothing.
            fail!("harness: child was ended by signal {sig}");
        } else {
            fail!("crashed with signal {sig} after a refused allocation");
        }
    }
}

fn grow<T: Modeled, X: Indexing>(mut q: Seq<T, X>, vs: &[V], s: &mut Src, (at, times): (u64, u64), how: u64, valid: impl Fn(&Seq<T, X>, usize) -> Option<bool>) {
    let d = T::desc();
    let k = vs.len() - 1;
    for v in &vs[..k] {
        q.push(T::init(v, s));
    }
    let c0 = q.capacity_in_offsets();
    // Prepared, so that the initializer itself needs nothing.
    let i = T::init(&vs[k], s);
    let ex: Vec<BoxInit<T>> = vec![T::init(&vs[k], s), T::init(&vs[k], s)];
    arm_failure(at, times);
    let r = match how {
        0 => caught(|| q.push(i)),
        _ => caught(|| q.extend(ex)),
    };
    let failed = disarm_failure();
    let done = match r {
        Ok(()) => {
            1 + (how > 0) as usize
        }
        Err(p) => {
            if p.is::<Fail>() {
                std::panic::resume_unwind(p);
            }
            check!(failed > 0, "panic although no allocation was refused");
            q.len().wrapping_sub(k)
        }
    };
    check!(done <= 1 + (how > 0) as usize, "after a refused allocation the sequence has {} elements, had {k}", q.len());
    let verify = |q: &Seq<T, X>, n: usize| {
        check!(q.len() == n, "after a refused allocation the sequence has {} elements, expected {n}", q.len());
        let mut o = 0;
        let mut m = 0;
        let mut starts = Vec::new();
        for (j, t) in q.iter().take(n + 1).enumerate() {
            let want = &vs[j.min(k)];
            let w = t.view();
            check!(w == *want, "after a refused allocation element {j} is {}, expected {}", w.show(), want.show());
            check!(q.offset_of(t) == o, "after a refused allocation element {j} is at {}", q.offset_of(t));
            starts.push(o);
            o += d.units(want);
            m += 1;
        }
        check!(m == n && q.offset() == o, "after a refused allocation {m} elements end at {}, expected {n} at {o}", q.offset());
        for x in 0..o.min(2000) + 9 {
            if let Some(got) = valid(q, x) {
                check!(got == starts.contains(&x), "after a refused allocation validity of offset {x} is {got}");
            }
        }
        check!(q.capacity_in_offsets() >= c0.max(o), "after a refused allocation the capacity is {}", q.capacity_in_offsets());
    };
    verify(&q, k + done);
    // Memory is available again.
    q.push(T::init(&vs[k], s));
    verify(&q, k + done + 1);
    let live = reg().live;
    let n: usize = q.iter().map(|t| d.tracked(&t.view())).sum();
    check!(live >= n as isize, "components of the sequence were dropped");
    drop(q);
    check!(reg().live == live - n as isize, "not every component of the sequence is dropped once");
}

pub fn alloc_fail<T: Modeled>(caps: &Caps<T>, v: &V, s: &mut Src) {
    let d = T::desc();
    let at = 1 + s.below(2);
    let times = [1, 1, 1, 2, 3, 10, u64::MAX][s.idx(7)];
    let what = s.below(8);
    let mut vs: Vec<V> = if what > 2 { (0..s.idx(7)).map(|_| d.gen(s)).collect() } else { Vec::new() };
    vs.push(v.clone());
    let how = s.below(3) / 2;
    // Choices made by the child do not come back.
    let s = &mut Src::random(s.below(1 << 16));
    isolated(|| {
        match what {
            0 => {
                let i = T::init(v, s);
                arm_failure(at, times);
                let r = caught(|| VBox::new(i));
                let failed = disarm_failure();
                match r {
                    Ok(b) => {
                        check!(failed == 0 || d.heap(), "an allocation was refused, but VBox::new succeeded");
                        check!(b.view() == *v, "VBox reads {}, expected {}", b.view().show(), v.show());
                    }
                    Err(p) if p.is::<Fail>() => std::panic::resume_unwind(p),
                    Err(_) => check!(failed > 0, "VBox::new panics although no allocation was refused"),
                }
            }
            1 => {
                let b = bumpalo::Bump::new();
                if s.chance(1, 2) {
                    crate::probe::unalign(&b);
                }
                let i = T::init(v, s);
                arm_failure(at, times);
                let r = caught(|| Owned::new_in(i, &b));
                let failed = disarm_failure();
                match r {
                    Ok(o) => check!(o.view() == *v, "arena value reads {}, expected {}", o.view().show(), v.show()),
                    Err(p) if p.is::<Fail>() => std::panic::resume_unwind(p),
                    Err(_) => check!(failed > 0, "Owned::new_in panics although no allocation was refused"),
                }
            }
            2 => {
                if let Some(f) = caps.bclone {
                    let b = VBox::new(T::init(v, s));
                    arm_failure(at, times);
                    let r = caught(|| f(&b));
                    let failed = disarm_failure();
                    check!(b.view() == *v, "the original reads {}, expected {}", b.view().show(), v.show());
                    match r {
                        Ok(c) => {
                            check!(failed == 0 || d.heap(), "an allocation was refused, but cloning succeeded");
                            check!(c.view() == *v, "clone reads {}, expected {}", c.view().show(), v.show());
                        }
                        Err(p) if p.is::<Fail>() => std::panic::resume_unwind(p),
                        Err(_) => check!(failed > 0, "cloning panics although no allocation was refused"),
                    }
                }
            }
            _ => {
                if what < 5 {
                    grow(Seq::<T>::new(), &vs, s, (at, times), how, |_, _| None)
                } else {
                    grow(IndexableSeq::<T>::new(), &vs, s, (at, times), how, |q, o| Some(q.is_offset_valid(o)))
                }
            }
        }
        if let Some(m) = crate::track::take_flag() {
            fail!("{m}");
        }
        crate::alloc::flush();
        if let Some(m) = crate::alloc::take_flag() {
            fail!("{m}");
        }
    });
}
