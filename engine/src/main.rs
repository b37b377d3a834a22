//! rsym: symbolic execution of rustc-generated LLVM IR with Z3.
//!
//! rsym --ll FILE --harness NAME --out FILE [--time S] [--jobs N] [--case N]
//!      [--known key]... [--max-steps N] [--samples N] [--solver-ms N]

mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::{Exec, Limits, Report};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn inputs_json(v: &[(String, u32, u128)]) -> String {
    let p: Vec<String> = v.iter().map(|(n, w, k)| format!("[{},{},\"{}\"]", esc(n), w, k)).collect();
    format!("[{}]", p.join(","))
}

fn report(ex: &Exec, wall: f64) -> String {
    let r: &Report = &ex.rep;
    let s = &ex.solver.stats;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths\":{},\"dead\":{},\"forks\":{},\"steps\":{},\"checks_concrete\":{},\"checks_solver\":{},\"max_depth\":{},\"max_steps\":{},",
        r.paths, r.infeasible, r.forks, r.steps, r.checks_concrete, r.checks_solver, r.max_depth, r.max_steps
    );
    let _ = write!(
        o,
        "\"queries\":{},\"solver_calls\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"nodes\":{},\"wall_s\":{:.3},",
        s.queries,
        s.solver_calls,
        s.sat,
        s.unsat,
        s.cache_hits,
        s.solver_us as f64 / 1e6,
        s.max_us as f64 / 1e6,
        ex.ar.nodes.len(),
        wall
    );
    let m = |m: &std::collections::BTreeMap<String, u64>| {
        let p: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        format!("{{{}}}", p.join(","))
    };
    let _ = write!(o, "\"checks\":{},\"covers\":{},\"errors\":{},", m(&r.check_names), m(&r.covers), m(&r.errors));
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"key\":{},\"detail\":{},\"inputs\":{},\"trace\":[{}]}}",
                esc(&v.key),
                esc(&v.detail),
                inputs_json(&v.inputs),
                v.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(o, "\"violations\":[{}],", v.join(","));
    let v: Vec<String> = r
        .samples
        .iter()
        .map(|p| {
            format!(
                "{{\"inputs\":{},\"obs\":[{}]}}",
                inputs_json(&p.inputs),
                p.obs.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(o, "\"samples\":[{}],", v.join(","));
    let f: Vec<String> = ex.entered().iter().map(|t| esc(t)).collect();
    let _ = write!(o, "\"functions\":[{}],\"z3\":{}}}", f.join(","), esc(&z3::Solver::version()));
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut harness = String::new();
    let mut out = String::new();
    let mut time = 600u64;
    let mut jobs = 1usize;
    let mut known = vec![];
    let mut case = 0u64;
    let mut max_steps = 50_000_000u64;
    let mut samples = 64usize;
    let mut solver_ms = 60_000u32;
    let mut verbose = false;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--harness" => harness = v,
            "--out" => out = v,
            "--time" => time = v.parse().unwrap(),
            "--jobs" => jobs = v.parse().unwrap(),
            "--known" => known.push(v),
            "--case" => case = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--solver-ms" => solver_ms = v.parse().unwrap(),
            "--verbose" => {
                verbose = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("rsym: unknown option {x}");
                std::process::exit(3);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let fail = |e: String| -> ! {
        eprintln!("rsym: {e}");
        std::process::exit(3)
    };
    let text = std::fs::read_to_string(&ll).unwrap_or_else(|e| fail(format!("{ll}: {e}")));
    let m = ir::load(text).unwrap_or_else(|e| fail(e));
    let lim = Limits {
        deadline: t0 + Duration::from_secs(time),
        max_steps,
        max_samples: samples,
        known,
        case,
        verbose,
        mem_limit_kb: 0,
    };
    let mut ex = Exec::new(m, lim, solver_ms).unwrap_or_else(|e| fail(e));
    let st = ex.initial(&harness).unwrap_or_else(|e| fail(e));
    // Phase 1: breadth first until there is enough work for every job.
    ex.pending.push(st);
    let want = if jobs > 1 { jobs * 24 } else { usize::MAX };
    if jobs > 1 {
        let mut queue: std::collections::VecDeque<_> = std::mem::take(&mut ex.pending).into();
        while let Some(s) = queue.pop_front() {
            ex.run(s);
            // deepest forks last
            let new = std::mem::take(&mut ex.pending);
            queue.extend(new);
            if ex.stop || ex.over() || queue.len() >= want || (queue.len() > 3 * jobs && t0.elapsed().as_secs() >= 2) {
                break;
            }
        }
        ex.pending = queue.into();
        if ex.over() && !ex.pending.is_empty() {
            *ex.rep.errors.entry("time limit reached".into()).or_insert(0) += 1;
        }
    }
    let write = |ex: &Exec, path: &str| {
        std::fs::write(path, report(ex, t0.elapsed().as_secs_f64())).unwrap_or_else(|e| {
            eprintln!("rsym: {path}: {e}");
            std::process::exit(3)
        });
    };
    if jobs <= 1 || ex.stop || ex.over() || ex.pending.is_empty() {
        ex.explore();
        if verbose {
            let mut p: Vec<_> = ex.rep.profile.iter().collect();
            p.sort_by_key(|x| std::cmp::Reverse(x.1));
            let n: u64 = p.iter().map(|x| x.1).sum();
            for (f, c) in p.iter().take(40) {
                eprintln!("{:5.1}% {f}", **c as f64 * 100.0 / n as f64);
            }
        }
        write(&ex, &format!("{out}.0"));
        return;
    }
    write(&ex, &format!("{out}.0"));
    // Phase 2: worker processes. A worker with several states left hands half of
    // them to a fork of itself whenever fewer than `jobs` workers are running.
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    if shared as isize == -1 {
        fail("mmap".into());
    }
    let shared = unsafe { std::slice::from_raw_parts(shared as *const AtomicUsize, 3) };
    let (free, stop, names) = (&shared[0], &shared[1], &shared[2]);
    let mut parts: Vec<Vec<_>> = (0..jobs).map(|_| vec![]).collect();
    for (i, s) in std::mem::take(&mut ex.pending).into_iter().enumerate() {
        parts[i % jobs].push(s);
    }
    names.store(1, SeqCst);
    let mut pids = vec![];
    for part in parts {
        if part.is_empty() {
            free.fetch_add(1, SeqCst);
            continue;
        }
        let pid = unsafe { fork() };
        if pid < 0 {
            fail("fork".into());
        }
        if pid > 0 {
            pids.push(pid);
            continue;
        }
        let mut name = names.fetch_add(1, SeqCst);
        let mut kids = vec![];
        ex.rep = Report::default();
        ex.solver.stats = Default::default();
        ex.pending = part;
        while let Some(s) = ex.pending.pop() {
            if ex.stop || stop.load(SeqCst) != 0 {
                break;
            }
            if ex.over() {
                *ex.rep.errors.entry("time limit reached".into()).or_insert(0) += 1;
                break;
            }
            ex.run(s);
            if ex.pending.len() >= 2 && free.load(SeqCst) > 0 {
                let took = free.try_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_ok();
                if took {
                    let (mut a, mut b) = (vec![], vec![]);
                    for (i, s) in std::mem::take(&mut ex.pending).into_iter().enumerate() {
                        if i % 2 == 0 { a.push(s) } else { b.push(s) }
                    }
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        name = names.fetch_add(1, SeqCst);
                        kids.clear();
                        ex.rep = Report::default();
                        ex.solver.stats = Default::default();
                        ex.pending = a;
                    } else {
                        if pid < 0 {
                            free.fetch_add(1, SeqCst);
                            b.append(&mut a);
                        } else {
                            kids.push(pid);
                        }
                        ex.pending = b;
                    }
                }
            }
        }
        if ex.stop {
            stop.store(1, SeqCst);
        }
        let mut bad = std::fs::write(format!("{out}.{name}"), report(&ex, t0.elapsed().as_secs_f64())).is_err();
        free.fetch_add(1, SeqCst);
        for p in kids {
            let mut s = 0;
            unsafe { waitpid(p, &mut s, 0) };
            bad |= s != 0;
        }
        unsafe { _exit(if bad { 4 } else { 0 }) }
    }
    let mut bad = false;
    for p in pids {
        let mut s = 0;
        unsafe { waitpid(p, &mut s, 0) };
        if s != 0 {
            bad = true;
        }
    }
    if bad {
        eprintln!("rsym: a worker died");
        std::process::exit(4);
    }
}
