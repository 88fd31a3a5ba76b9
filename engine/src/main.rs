mod exec;
mod expr;
mod ir;
mod mem;
mod sha;
mod solver;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    // deep recursion in expression constructors: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut mods = Vec::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut tier = 0;
    let mut max_s = 600.0;
    let mut concrete = None;
    let mut qt = 20000;
    let mut ft = 60000;
    let mut i = 1;
    let mut target = "algorsand".to_string();
    let mut maxv = 6;
    let mut maxi = 200_000_000u64;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--list" => {
                for l in std::fs::read_to_string(&v).expect("module list").lines() {
                    if !l.trim().is_empty() {
                        mods.push(l.trim().to_string());
                    }
                }
            }
            "--ll" => mods.push(v),
            "--entry" => entry = v,
            "--out" => out = v,
            "--tier" => tier = if v == "thorough" { 1 } else { 0 },
            "--max-seconds" => max_s = v.parse().unwrap(),
            "--concrete" => concrete = Some(std::fs::read(&v).unwrap()),
            "--query-ms" => qt = v.parse().unwrap(),
            "--fallback-ms" => ft = v.parse().unwrap(),
            "--target" => target = v,
            "--max-violations" => maxv = v.parse().unwrap(),
            "--max-instr" => maxi = v.parse().unwrap(),
            x => {
                eprintln!("unknown option {}", x);
                return 3;
            }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let cfg = exec::Config { tier, max_seconds: max_s, max_instr_path: maxi, concrete, max_violations: maxv, ideal_hash: true };
    let solver = solver::Solver::new(qt, ft);
    let mut e = exec::Engine::new(&mods, cfg, solver, &target);
    let load = t0.elapsed().as_secs_f64();
    e.run(&entry);
    let wall = t0.elapsed().as_secs_f64();
    let r = &e.rep;
    let s = &e.solver.stats;
    let status = if !r.violations.is_empty() {
        "violation"
    } else if !r.inconclusive.is_empty() {
        "inconclusive"
    } else {
        "ok"
    };
    let mut j = String::from("{\n");
    j.push_str(&format!("\"entry\":{},\n\"status\":{},\n", jstr(&entry), jstr(status)));
    j.push_str(&format!(
        "\"paths\":{},\"ended_ok\":{},\"ended_panic_ok\":{},\"assumed_away\":{},\"forks\":{},\"instructions\":{},\"max_path_instructions\":{},\"assertions\":{},\"assertions_folded\":{},\"hash_applications\":{},\n",
        r.paths, r.ended_ok, r.ended_panic_ok, r.assumed_away, r.forks, r.instrs, r.max_path_instrs, r.asserts, r.asserts_const, r.hash_apps
    ));
    j.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"fallbacks\":{},\"small_domain\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\n",
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.fallback, s.small, s.time, s.max_time, load, wall
    ));
    j.push_str("\"covers\":{");
    j.push_str(&r.covers.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\n\"inconclusive\":[");
    j.push_str(&r.inconclusive.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"functions\":[");
    j.push_str(&r.funcs.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"trace\":[");
    j.push_str(&r.trace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"samples\":[");
    let hs = |h: &Vec<(u64, String, String)>| h.iter().map(|(k, i, o)| format!("[{},{},{}]", k, jstr(i), jstr(o))).collect::<Vec<_>>().join(",");
    j.push_str(
        &r.samples
            .iter()
            .map(|x| {
                format!(
                    "{{\"input\":{},\"trace\":[{}],\"hashes\":[{}]}}",
                    jstr(&hex(&x.input)),
                    x.trace.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(","),
                    hs(&x.hashes)
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    j.push_str("],\n\"violations\":[");
    let vs: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"label\":{},\"msg\":{},\"input\":{},\"fields\":[{}],\"hashes\":[{}],\"backtrace\":[{}]}}",
                jstr(&v.label),
                jstr(&v.msg),
                jstr(&hex(&v.input)),
                v.fields.iter().map(|(k, x)| format!("[{},{}]", jstr(k), jstr(x))).collect::<Vec<_>>().join(","),
                v.hashes.iter().map(|(k, i, o)| format!("[{},{},{}]", k, jstr(i), jstr(o))).collect::<Vec<_>>().join(","),
                v.backtrace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    j.push_str(&vs.join(",\n"));
    j.push_str("]\n}\n");
    if out.is_empty() {
        print!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
    0
}
