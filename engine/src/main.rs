mod exec;
mod expr;
mod hash;
mod ir;
mod lia;
mod mem;
mod smt;

use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let mut ir = None;
    let mut entry = None;
    let mut out = None;
    let mut cov_file = None;
    let mut params = vec![];
    let mut max_steps = 20_000_000u64;
    let mut time_s = 60.0;
    let mut max_mb = 3500;
    let mut max_viol = 50;
    let mut samples = 12;
    let mut preempts = 3;
    let mut verbose = false;
    let mut timeout = 20_000;
    let mut lib: Option<String> = None;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ir" => ir = Some(v()),
            "--entry" => entry = Some(v()),
            "--out" => out = Some(v()),
            "--param" => params.push(v().parse().expect("param")),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--cov" => cov_file = Some(v()),
            "--mem" => max_mb = v().parse().unwrap(),
            "--time" => time_s = v().parse().unwrap(),
            "--max-violations" => max_viol = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--preempts" => preempts = v().parse().unwrap(),
            "--query-timeout-ms" => timeout = v().parse().unwrap(),
            "--z3" => lib = Some(v()),
            "-v" => verbose = true,
            "--selftest" => {
                let n = v().parse().unwrap();
                for seed in 1..=8u64 {
                    if let Err(m) = expr::selftest(n, seed.wrapping_mul(0x9E3779B97F4A7C15)) {
                        eprintln!("selftest failed: {m}");
                        return 3;
                    }
                }
                if !hash::selftest() {
                    eprintln!("selftest failed: hashes");
                    return 3;
                }
                let mut sm = smt::Smt::new(lib.as_deref(), timeout).expect("libz3");
                let (mut d, mut u) = (0, 0);
                for seed in 1..=4u64 {
                    match smt::selftest(&mut sm, n, seed.wrapping_mul(0x9E3779B97F4A7C15)) {
                        Ok((a, b)) => {
                            d += a;
                            u += b
                        }
                        Err(m) => {
                            eprintln!("selftest failed: {m}");
                            return 3;
                        }
                    }
                }
                println!("selftest ok, integer translation: {d} decided, {u} undecided");
                return 0;
            }
            _ => {
                eprintln!("unknown option {a}");
                return 3;
            }
        }
    }
    let text = std::fs::read_to_string(ir.expect("--ir")).expect("read ir");
    let smt = match smt::Smt::new(lib.as_deref(), timeout) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 3;
        }
    };
    let cfg = exec::Cfg {
        params,
        max_steps,
        time_s,
        max_mb,
        max_violations: max_viol,
        samples,
        max_preempts: preempts,
        verbose,
    };
    let mut e = exec::Engine::new(text, cfg, smt);
    let t_load = e.elapsed();
    if let Err(m) = e.run(&entry.expect("--entry")) {
        eprintln!("{m}");
        return 3;
    }
    let s = &e.stats;
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"complete\": {}, \"pending\": {},", s.complete, e.pending());
    let _ = writeln!(
        o,
        " \"paths\": {}, \"infeasible\": {}, \"forks\": {}, \"steps\": {}, \"max_steps_path\": {}, \"max_depth\": {}, \"max_vars\": {}, \"max_pc\": {}, \"concretisations\": {}, \"sched_points\": {},",
        s.paths, s.infeasible, s.forks, s.steps, s.max_steps_path, s.max_depth, s.max_vars, s.max_pc, s.conc, s.sched_points
    );
    let _ = writeln!(
        o,
        " \"asserts\": {}, \"asserts_folded\": {}, \"asserts_smt\": {}, \"assert_unknown\": {}, \"branch_smt\": {}, \"branch_dom\": {}, \"branch_cache\": {},",
        s.asserts, s.asserts_folded, s.asserts_smt, s.assert_unknown, s.branch_smt, s.branch_dom, s.branch_cache
    );
    let _ = writeln!(
        o,
        " \"queries\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"unknowns\": {}, \"solver\": {}, \"load_s\": {:.3}, \"wall_s\": {:.3}, \"nodes\": {},",
        e.smt.queries,
        e.smt.time_us as f64 / 1e6,
        e.smt.max_us as f64 / 1e6,
        e.smt.unknowns,
        js(&format!("z3 {}", e.smt.version)),
        t_load,
        e.elapsed(),
        e.p.nodes.len()
    );
    let mp = |m: &std::collections::BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    };
    let _ = writeln!(o, " \"truncated\": {{{}}},", mp(&s.truncated));
    let _ = writeln!(o, " \"inconclusive\": {{{}}},", mp(&s.inconclusive));
    let cov: Vec<String> = e.covers.iter().zip(&e.cover_count).map(|(c, n)| format!("{}: {}", js(c), n)).collect();
    let _ = writeln!(o, " \"covers\": {{{}}},", cov.join(", "));
    let fns: Vec<String> = e
        .used
        .iter()
        .enumerate()
        .filter(|(_, u)| **u)
        .map(|(i, _)| js(&e.m.fns[i].name))
        .collect();
    let _ = writeln!(o, " \"functions\": [{}],", fns.join(", "));
    let sm: Vec<String> = e
        .samples
        .iter()
        .map(|x| {
            format!(
                "{{\"input\": \"{}\", \"observed\": \"{}\", \"covers\": [{}]}}",
                hex(&x.input),
                hex(&x.observed),
                x.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect();
    let _ = writeln!(o, " \"samples\": [{}],", sm.join(",\n  "));
    let vs: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\": {}, \"label\": {}, \"count\": {}, \"input\": \"{}\", \"sched\": \"{}\", \"trace\": [{}], \"covers\": [{}]}}",
                js(&v.kind),
                js(&v.label),
                v.count,
                hex(&v.input),
                hex(&v.sched),
                v.trace.iter().map(|t| js(&exec::short(t))).collect::<Vec<_>>().join(", "),
                v.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect();
    let _ = writeln!(o, " \"violations\": [{}]\n}}", vs.join(",\n  "));
    if let Some(f) = cov_file {
        std::fs::write(f, e.coverage()).expect("write");
    }
    match out {
        Some(f) => std::fs::write(f, o).expect("write"),
        None => print!("{o}"),
    }
    if !e.viols.is_empty() {
        1
    } else {
        0
    }
}
