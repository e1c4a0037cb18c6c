mod exec;
mod expr;
mod ir;
mod prog;
mod solver;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() -> i32 {
    let mut files = Vec::new();
    let (mut entry, mut out) = (String::new(), String::new());
    let mut params = Vec::new();
    let mut lim = exec::Limits {
        secs: 600.0,
        paths: 10_000_000,
        steps: 20_000_000,
        depth: 200,
        max_viol: 40,
    };
    let mut qms = 60_000u32;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap_or_default();
        match a.as_str() {
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--param" => params.push(v().parse().unwrap_or(0)),
            "--time" => lim.secs = v().parse().unwrap_or(600.0),
            "--paths" => lim.paths = v().parse().unwrap_or(10_000_000),
            "--steps" => lim.steps = v().parse().unwrap_or(20_000_000),
            "--depth" => lim.depth = v().parse().unwrap_or(200),
            "--query-ms" => qms = v().parse().unwrap_or(60_000),
            _ => files.push(a),
        }
    }
    let t0 = std::time::Instant::now();
    let pr = match prog::Prog::load(&files) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("sx: {}", e);
            return 2;
        }
    };
    let load = t0.elapsed().as_secs_f64();
    let mut x = exec::Exec::new(pr, lim, params.clone(), qms);
    if let Err(e) = x.run(&entry) {
        eprintln!("sx: {}", e);
        return 2;
    }
    let mut j = String::from("{");
    j += &format!("\"entry\":{},\"params\":{:?},", esc(&entry), params);
    j += &format!("\"exhausted\":{},", x.incomplete.is_empty());
    j += &format!(
        "\"incomplete\":[{}],",
        x.incomplete.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    );
    j += &format!(
        "\"paths\":{},\"forks\":{},\"instrs\":{},\"assumed_away\":{},\"checks\":{},\"checks_concrete\":{},\"max_constraints\":{},\"max_symbolic_bytes\":{},\"calls\":{},",
        x.st.paths, x.st.forks, x.st.instrs, x.st.assumed_away, x.st.checks, x.st.checks_const, x.st.maxcons, x.st.maxsym, x.st.nfunc
    );
    j += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},",
        x.so.queries, x.so.sat, x.so.unsat, x.so.unknown, x.so.cached, x.so.secs, x.so.slowest, load, t0.elapsed().as_secs_f64()
    );
    j += &format!(
        "\"covers\":{{{}}},",
        x.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    );
    j += &format!(
        "\"check_msgs\":{{{}}},",
        x.check_msgs.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    );
    let hex = |w: &[u8]| w.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    j += &format!(
        "\"cover_witness\":{{{}}},",
        x.cover_w.iter().map(|(k, v)| format!("{}:\"{}\"", esc(k), hex(v))).collect::<Vec<_>>().join(",")
    );
    j += &format!(
        "\"samples\":[{}],",
        x.samples.iter().map(|(w, t)| format!("[\"{}\",\"{:016x}\"]", hex(w), t)).collect::<Vec<_>>().join(",")
    );
    let mut fs: Vec<String> = x
        .funcs
        .iter()
        .map(|i| {
            let nb = x.blocks.iter().filter(|b| b.0 == *i).count();
            let tot = x.pr.lowered[*i].as_ref().map(|f| f.blocks.len()).unwrap_or(0);
            format!("[{},{},{}]", esc(&prog::demangle(&x.pr.fns[*i].name)), nb, tot)
        })
        .collect();
    fs.sort();
    j += &format!("\"functions\":[{}],", fs.join(","));
    let vs: Vec<String> = x
        .viol
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"loc\":{},\"stack\":[{}],\"witness\":\"{}\",\"inputs\":[{}]}}",
                esc(&v.kind),
                esc(&v.msg),
                esc(&v.loc),
                v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
                v.witness.iter().map(|b| format!("{:02x}", b)).collect::<String>(),
                v.inputs
                    .iter()
                    .map(|(n, s, l)| format!("[{},{},{}]", esc(n), s, l))
                    .collect::<Vec<_>>()
                    .join(",")
            )
        })
        .collect();
    j += &format!("\"violations\":[{}]}}", vs.join(","));
    if out.is_empty() {
        println!("{}", j);
    } else if std::fs::write(&out, j).is_err() {
        return 2;
    }
    0
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(real_main)
        .unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
