#![allow(dead_code)]
#[macro_use]
extern crate fourleaf;

#[macro_use]
mod engine;
mod alloc;
mod cov;
mod mem;
mod src;
mod refm;
mod types;
mod gen;
mod props;

use std::fmt::Write as _;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn profile() -> &'static str { if cfg!(debug_assertions) { "checked" } else { "plain" } }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    engine::install_hook();
    engine::start_monitor();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args.get(i + 1).cloned().unwrap_or_default());
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => for p in props::all() { println!("{}", p.id); },
        "run" => {
            let id = &args[1];
            let tier = get("--tier").unwrap_or("quick".into());
            let seed: u64 = get("--seed").unwrap_or("1".into()).parse().unwrap();
            let threads: usize = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
            let out = get("--out");
            let only = get("--facet");
            let scale: f64 = get("--scale").map(|s| s.parse().unwrap()).unwrap_or(1.0);
            let slots = get("--slots").map(|f| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).unwrap());
            let prop = props::all().into_iter().find(|p| p.id == *id).expect("unknown property");
            // profile goes into the seed so that the two builds explore different cases
            let seed2 = src::mix(seed, if cfg!(debug_assertions) { 11 } else { 22 });
            let mut o = String::new();
            let _ = write!(o, "{{\"property\":{},\"profile\":{},\"rule\":{},\"seed2\":{},\"facets\":[", js(prop.id), js(profile()), js(prop.rule), seed2);
            let mut failed = false;
            let mut first = true;
            for facet in &prop.facets {
                if let Some(ref f) = only { if f != facet.name { continue; } }
                let n = if tier == "thorough" { facet.thorough } else { facet.quick };
                let n = (n as f64 * scale).ceil() as u64;
                if let Some(ref f) = get("--slots") {
                    // tell the supervisor which facet is running
                    std::fs::write(format!("{}.facet", f), facet.name).unwrap();
                }
                let r = engine::run_facet(&prop, facet, n, seed2, threads, slots.as_ref());
                eprintln!("{} {} {}: {} evaluations, {} distinct non-trivial, {:.1}s{}", prop.id, profile(), r.facet, r.evaluations, r.distinct, r.wall, if r.failure.is_some() { " FAILED" } else { "" });
                if get("--labels").is_some() { eprintln!("   {:?}", r.labels); for s in &r.samples { eprintln!("   sample {}", s); } }
                if !first { o.push(','); }
                first = false;
                let _ = write!(o, "{{\"facet\":{},\"evaluations\":{},\"distinct\":{},\"wall\":{:.2},\"labels\":{{", js(r.facet), r.evaluations, r.distinct, r.wall);
                let l: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
                o.push_str(&l.join(","));
                o.push_str("},\"samples\":[");
                let l: Vec<String> = r.samples.iter().map(|s| js(&s.chars().take(900).collect::<String>())).collect();
                o.push_str(&l.join(","));
                o.push(']');
                if let Some(f) = r.failure {
                    failed = true;
                    eprintln!("  index {}: {}", f.index, f.message);
                    let t: Vec<String> = f.tape.iter().map(|x| x.to_string()).collect();
                    let _ = write!(o, ",\"failure\":{{\"index\":{},\"message\":{},\"tape\":[{}]}}", f.index, js(&f.message), t.join(","));
                }
                o.push('}');
            }
            o.push_str("]}\n");
            if let Some(p) = out { std::fs::write(p, o).unwrap(); } else if get("--json").is_some() { println!("{}", o); }
            std::process::exit(if failed { 1 } else { 0 });
        }
        "facets" => {
            let prop = props::all().into_iter().find(|p| p.id == args[1]).expect("unknown property");
            for f in &prop.facets { println!("{} {}", f.name, f.thorough); }
        }
        // coverage-guided search of one facet, on one thread
        "fuzz" => {
            let id = args[1].clone();
            let facet = get("--facet").unwrap();
            let seed: u64 = get("--seed").unwrap_or("1".into()).parse().unwrap();
            let execs: u64 = get("--execs").unwrap_or("100000".into()).parse().unwrap();
            let out = get("--out");
            let current = get("--current").map(|f| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).unwrap());
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let prop = props::all().into_iter().find(|p| p.id == id).expect("unknown property");
                let f = prop.facets.iter().find(|f| f.name == facet).expect("unknown facet");
                cov::fuzz(&prop, f, execs, src::mix(seed, 33), current.as_ref())
            }).unwrap().join().unwrap();
            let l: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            let mut o = format!("{{\"evaluations\":{},\"distinct\":{},\"corpus\":{},\"edges\":{},\"counters\":{},\"labels\":{{{}}}",
                r.execs, r.distinct, r.corpus, r.edges, r.counters, l.join(","));
            let mut failed = false;
            if let Some((tape, m)) = r.failure {
                failed = true;
                let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
                let _ = write!(o, ",\"failure\":{{\"message\":{},\"tape\":[{}]}}", js(&m), t.join(","));
            }
            o.push('}');
            if let Some(p) = out { std::fs::write(p, o).unwrap(); } else { println!("{}", o); }
            std::process::exit(if failed { 1 } else { 0 });
        }
        // one random case by index: used to confirm crashes
        "one" => {
            let id = &args[1];
            let facet = get("--facet").unwrap();
            let seed2: u64 = src::mix(get("--seed").unwrap().parse().unwrap(), if cfg!(debug_assertions) { 11 } else { 22 });
            let index: u64 = get("--index").unwrap().parse().unwrap();
            let prop = props::all().into_iter().find(|p| p.id == *id).expect("unknown property");
            let f = prop.facets.iter().find(|f| f.name == facet).expect("unknown facet");
            let r = engine::one(f.f, engine::case_seed(seed2, prop.id, f.name, index));
            println!("{:?}", r);
            std::process::exit(if r.is_ok() { 0 } else { 1 });
        }
        "replay" => {
            // replay FILE: lines property= facet= tape=
            let text = std::fs::read_to_string(&args[1]).unwrap();
            let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.to_string()));
            let id = field("property=").unwrap();
            let facet = field("facet=").unwrap();
            let tape: Vec<u64> = field("tape=").unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
            let prop = props::all().into_iter().find(|p| p.id == id).expect("unknown property");
            let f = prop.facets.iter().find(|f| f.name == facet).expect("unknown facet");
            let r = match field("extend=") {
                None => engine::replay(f.f, &tape).0,
                Some(x) => engine::watched_case(f.f, &mut src::Src::extend(tape, x.parse().unwrap()), &mut engine::Cx::default()),
            };
            match r {
                Ok(()) => { println!("replay: holds"); std::process::exit(0); }
                Err(m) => { println!("replay: {}", m); std::process::exit(1); }
            }
        }
        _ => { eprintln!("usage: flverif list|run ID|one ID|replay FILE"); std::process::exit(2); }
    }
}
