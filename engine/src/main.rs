mod crypto;
mod exec;
mod expr;
mod ir;
mod z3;
use std::io::Write;
use std::rc::Rc;

pub fn demangle(n: &str) -> String {
    if let Some(mut s) = n.strip_prefix("_ZN") {
        let mut parts: Vec<String> = vec![];
        loop {
            let d = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(0);
            if d == 0 {
                break;
            }
            let l: usize = s[..d].parse().unwrap_or(0);
            if d + l > s.len() {
                break;
            }
            let p = &s[d..d + l];
            s = &s[d + l..];
            if p.len() == 17 && p.starts_with('h') && p[1..].bytes().all(|c| c.is_ascii_hexdigit()) {
                break;
            }
            let mut q = p.to_string();
            for (a, b) in [("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$u20$", " "), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]"), ("$C$", ","), ("$BP$", "*"), ("$u27$", "'"), ("$u3b$", ";"), ("..", "::")] {
                q = q.replace(a, b);
            }
            if q.starts_with("_<") {
                q.remove(0);
            }
            parts.push(q);
        }
        return parts.join("::");
    }
    n.to_string()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut timeout = 600.0f64;
    let mut qt = 120_000u32;
    let mut max_paths = 1_000_000;
    let mut max_steps = 200_000_000;
    let mut samples = 12;
    let mut seed = 1;
    let mut trace = false;
    let mut text = false;
    let mut dump = None;
    let mut root = "/repo/".to_string();
    let mut maxv = 3;
    let mut split = (0u64, 1u64);
    let (mut own, mut known, mut settle) = (vec![], vec![], f64::MAX);
    let mut i = 1;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--entry" => { entry = nx(); i += 1; }
            "--out" => { out = nx(); i += 1; }
            "--timeout" => { timeout = nx().parse().unwrap(); i += 1; }
            "--query-timeout-ms" => { qt = nx().parse().unwrap(); i += 1; }
            "--max-paths" => { max_paths = nx().parse().unwrap(); i += 1; }
            "--max-steps" => { max_steps = nx().parse().unwrap(); i += 1; }
            "--samples" => { samples = nx().parse().unwrap(); i += 1; }
            "--seed" => { seed = nx().parse().unwrap(); i += 1; }
            "--max-violations" => { maxv = nx().parse().unwrap(); i += 1; }
            "--part" => {
                let x = nx();
                let (a, b) = x.split_once('/').unwrap();
                split = (a.parse().unwrap(), b.parse().unwrap());
                i += 1;
            }
            "--own" => { own = nx().split(',').map(String::from).collect(); i += 1; }
            "--known" => { known = nx().split(',').map(String::from).collect(); i += 1; }
            "--settle" => { settle = nx().parse().unwrap(); i += 1; }
            "--root" => { root = nx(); i += 1; }
            "--dump" => { dump = Some(nx()); i += 1; }
            "--trace" => trace = true,
            "--text" => text = true,
            "--uf" => {
                // native evaluation helper: --uf kind hexinput outlen
                let kind: u64 = args[i + 1].parse().unwrap();
                let h = args[i + 2].as_bytes();
                let inp: Vec<u8> = (0..h.len() / 2).map(|j| u8::from_str_radix(std::str::from_utf8(&h[2 * j..2 * j + 2]).unwrap(), 16).unwrap()).collect();
                println!("{}", hex(&crypto::uf_native(kind, &inp, args[i + 3].parse().unwrap())));
                return;
            }
            x => ll = x.to_string(),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    // deep recursion in the simplifier: run on a big stack
    let h = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let m = match ir::Module::load(&ll, text) {
                Ok(m) => Rc::new(m),
                Err(e) => {
                    eprintln!("symir: {}", e);
                    return 3;
                }
            };
            let load_s = t0.elapsed().as_secs_f64();
            let mut z = z3::Z3::new(qt, seed as u32);
            z.dump = dump;
            let cfg = exec::Cfg {
                max_paths,
                max_steps,
                deadline: t0 + std::time::Duration::from_secs_f64(timeout),
                max_violations: maxv,
                samples,
                seed,
                trace,
                split,
                own,
                known,
                settle,
            };
            let mut ex = exec::Exec::new(m, cfg, z);
            if let Err(e) = ex.run(&entry) {
                eprintln!("symir: {}", e);
                return 3;
            }
            let mut o = String::new();
            o.push_str("{\n");
            o.push_str(&format!("\"entry\": {},\n", js(&entry)));
            let mp = |m: &std::collections::BTreeMap<String, u64>| -> String {
                format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "))
            };
            o.push_str(&format!("\"paths\": {},\n", mp(&ex.paths)));
            o.push_str(&format!("\"aborts\": {},\n", mp(&ex.abort_kinds)));
            o.push_str(&format!("\"fork_sites\": {},\n", mp(&ex.fork_sites)));
            o.push_str(&format!("\"covers\": {},\n", mp(&ex.covers)));
            o.push_str(&format!(
                "\"asserts\": {{{}}},\n",
                ex.asserts.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(", ")
            ));
            o.push_str(&format!(
                "\"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"secs\": {:.3}, \"max_secs\": {:.3}, \"cache_hits\": {}}},\n",
                ex.z3.queries, ex.z3.sat, ex.z3.unsat, ex.z3.unknown, ex.z3.secs, ex.z3.max_secs, ex.qcache_hits
            ));
            o.push_str(&format!(
                "\"steps\": {}, \"forks\": {}, \"uf_apps\": {}, \"nodes\": {}, \"wall_s\": {:.3}, \"load_s\": {:.3},\n",
                ex.steps, ex.forks, ex.uf_apps, ex.cx.nodes.len(), t0.elapsed().as_secs_f64(), load_s
            ));
            let fns = ex.repo_functions();
            o.push_str(&format!(
                "\"functions\": [{}],\n",
                fns.iter().filter(|(f, _)| f.starts_with(&root)).map(|(f, n)| js(&format!("{} ({})", n, &f[root.len()..]))).collect::<Vec<_>>().join(", ")
            ));
            let lines = ex.repo_lines();
            o.push_str(&format!("\"repo_lines\": {},\n", lines.iter().filter(|(f, _)| f.starts_with(&root)).count()));
            let inp = |v: &Vec<(String, Vec<u8>)>| -> String {
                format!("[{}]", v.iter().map(|(t, b)| format!("[{}, {}]", js(t), js(&hex(b)))).collect::<Vec<_>>().join(", "))
            };
            o.push_str(&format!(
                "\"violations\": [{}],\n",
                ex.violations
                    .iter()
                    .map(|v| format!(
                        "{{\"id\": {}, \"real\": {}, \"detail\": {}, \"inputs\": {}, \"trace\": [{}]}}",
                        js(&v.id),
                        v.real,
                        js(&v.detail),
                        inp(&v.inputs),
                        v.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
                    ))
                    .collect::<Vec<_>>()
                    .join(",\n")
            ));
            o.push_str(&format!(
                "\"samples\": [{}],\n",
                ex.samples
                    .iter()
                    .map(|s| format!(
                        "{{\"end\": {}, \"real\": {}, \"inputs\": {}, \"obs\": [{}]}}",
                        js(&s.end),
                        s.real,
                        inp(&s.inputs),
                        s.obs.iter().map(|(t, v)| format!("[{}, {}]", js(t), v)).collect::<Vec<_>>().join(", ")
                    ))
                    .collect::<Vec<_>>()
                    .join(",\n")
            ));
            o.push_str(&format!("\"errors\": [{}]\n}}\n", ex.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")));
            if out.is_empty() {
                print!("{}", o);
            } else {
                let mut f = std::fs::File::create(&out).unwrap();
                f.write_all(o.as_bytes()).unwrap();
            }
            if !ex.errors.is_empty() { 2 } else if !ex.violations.is_empty() { 1 } else { 0 }
        })
        .unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}
