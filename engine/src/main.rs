mod exec;
mod expr;
mod parse;
mod solver;
use exec::*;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn wjs(w: &Witness) -> String {
    let i: Vec<String> = w.inputs.iter().map(|(a, b, c)| format!("[{},{},{}]", js(a), js(b), js(c))).collect();
    let p: Vec<String> = w.prints.iter().map(|p| js(&p.iter().map(|b| format!("{:02x}", b)).collect::<String>())).collect();
    let r: Vec<String> = w.reaches.iter().map(|p| js(p)).collect();
    format!("{{\"inputs\":[{}],\"prints\":[{}],\"reaches\":[{}]}}", i.join(","), p.join(","), r.join(","))
}
/// One child's (or the parent's) results as a JSON object.
fn report(e: &Engine) -> String {
    let r = &e.rep;
    let z = &e.z.stats;
    let mut s = String::from("{");
    for (k, v) in [("paths", r.paths), ("infeasible", r.infeasible), ("steps", r.steps), ("forks", r.forks), ("merges", r.merges), ("dec_table", r.dec_table), ("dec_model", r.dec_model), ("dec_solver", r.dec_solver), ("asserts_solver", r.asserts_solver), ("asserts_syntactic", r.asserts_syntactic), ("max_depth", r.max_depth as u64), ("z3_queries", z.queries), ("z3_sat", z.sat), ("z3_unsat", z.unsat), ("z3_unknown", z.unknown), ("z3_cached", z.cached), ("z3_us", z.time_us), ("z3_max_us", z.max_us), ("nodes", expr::cx().nnodes as u64)] { s.push_str(&format!("\"{}\":{},", k, v)); }
    s.push_str(&format!("\"incomplete\":[{}],", r.incomplete.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"violations\":[{}],", r.viols.iter().map(|(k, d, w)| format!("{{\"kind\":{},\"what\":{},\"witness\":{}}}", js(k), js(d), wjs(w))).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"reach\":{{{}}},", r.reach.iter().map(|(k, (c, w))| format!("{}:{{\"count\":{},\"witness\":{}}}", js(k), c, w.as_ref().map_or("null".into(), wjs))).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"path_witnesses\":[{}],", r.path_wit.iter().map(wjs).collect::<Vec<_>>().join(",")));
    let mut f: Vec<&str> = r.funcs.iter().map(|i| e.m.fnames[*i as usize].as_str()).collect();
    f.sort();
    s.push_str(&format!("\"functions\":[{}]}}", f.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    s
}

fn main() {
    let th = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    let c = th.join().unwrap_or(96);
    std::process::exit(c);
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let out = get("--out").expect("--out");
    let secs: u64 = get("--time").map_or(300, |x| x.parse().unwrap());
    let jobs: usize = get("--jobs").map_or(8, |x| x.parse().unwrap());
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = match parse::parse(&text) { Ok(m) => m, Err(e) => { eprintln!("parse error: {}", e); return 95; } };
    drop(text);
    let parse_ms = t0.elapsed().as_millis();
    let nf = m.funcs.iter().filter(|f| f.is_some()).count();
    let ninstr: usize = m.funcs.iter().flatten().map(|f| f.ninstr).sum();
    let mut e = Engine::new(m);
    e.trace = a.iter().any(|x| x == "--trace");
    e.z3_all = a.iter().any(|x| x == "--z3-all");
    e.z.raw = e.z3_all;
    e.no_merge = a.iter().any(|x| x == "--no-merge");
    e.z.dump = get("--dump");
    if let Some(x) = get("--max-steps") { e.max_steps = x.parse().unwrap(); }
    e.deadline = Instant::now() + Duration::from_secs(secs);
    e.z.deadline = Some(e.deadline);
    unsafe { alarm(secs as u32 + 45) }; // a solver call that ignores its own limit
    if let Err(x) = e.start(&entry) { eprintln!("{}", x); return 94; }
    // breadth-first until there is enough work to share
    let want = if jobs > 1 { jobs * 12 } else { usize::MAX };
    let mut parts: Vec<String> = vec![];
    while !e.work.is_empty() && e.work.len() < want && (jobs > 1) { let s = e.work.pop_front().unwrap(); e.run(s); if e.late() { break; } }
    if jobs <= 1 { while let Some(s) = e.work.pop_back() { if e.late() { e.rep.incomplete.push(format!("time limit: {} states left", e.work.len() + 1)); e.work.clear(); break; } e.run(s); } }
    if e.work.is_empty() { parts.push(report(&e)); } else {
        let states: Vec<State> = e.work.drain(..).collect();
        let nst = states.len();
        parts.push(report(&e));
        let counter = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
        let mut pids = vec![];
        for j in 0..jobs {
            let path = format!("{}.part{}", out, j);
            let _ = std::fs::remove_file(&path);
            let pid = unsafe { fork() };
            if pid == 0 {
                let dump = e.z.dump.take();
                unsafe { alarm((e.deadline + Duration::from_secs(20)).saturating_duration_since(Instant::now()).as_secs() as u32 + 1) };
                e.z = solver::Z::new();
                e.z.deadline = Some(e.deadline);
                e.z.dump = dump;
                e.z.raw = e.z3_all;
                e.rep = Report::default();
                loop {
                    let i = counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= nst { break; }
                    e.work.push_back(states[i].clone());
                    while let Some(s) = e.work.pop_back() { if e.late() { break; } e.run(s); }
                    if e.late() { break; }
                }
                if e.late() { let done = counter.load(std::sync::atomic::Ordering::SeqCst).min(nst); e.rep.incomplete.push(format!("time limit: {} states left here, {} not started", e.work.len(), nst - done)); }
                let mut f = std::fs::File::create(&path).unwrap();
                f.write_all(report(&e).as_bytes()).unwrap();
                drop(f);
                unsafe { _exit(0) }
            }
            pids.push((pid, path));
        }
        for (pid, path) in pids {
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0); }
            let mut s = String::new();
            if st != 0 || std::fs::File::open(&path).and_then(|mut f| f.read_to_string(&mut s)).is_err() { parts.push(format!("{{\"incomplete\":[\"worker died: status {}\"]}}", st)); } else { parts.push(s); }
            let _ = std::fs::remove_file(&path);
        }
    }
    let j = format!("{{\"entry\":{},\"z3\":{},\"parse_ms\":{},\"wall_ms\":{},\"module_functions\":{},\"module_instructions\":{},\"parts\":[{}]}}", js(&entry), js(&solver::version()), parse_ms, t0.elapsed().as_millis(), nf, ninstr, parts.join(","));
    std::fs::write(&out, j).unwrap();
    0
}
