//! lsx: symbolic execution of LLVM IR with an SMT solver deciding branches and assertions.
mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn pipe(fds: *mut i32) -> i32;
    fn fork() -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn nums(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("\"{:x}\"", x)).collect();
    format!("[{}]", s.join(","))
}

fn report(e: &Engine, exit: &str) -> String {
    let r = &e.rep;
    let s = &e.solver.stats;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"exit\":{},\"paths\":{},\"dead\":{},\"steps\":{},\"max_steps\":{},\"forks\":{},\"max_vars\":{},\"checks\":{},\"checks_folded\":{},\"inconclusive\":{},\"incomplete\":{},\"states_left\":{}",
        esc(exit), r.paths, r.dead, r.steps, r.max_steps, r.forks, r.max_vars, r.checks, r.checks_const, r.inconclusive, r.incomplete, r.states_left
    );
    let _ = write!(
        o,
        ",\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},\"max_query_us\":{},\"solver\":{},\"finite\":{},\"finite_audited\":{}",
        s.queries, s.cache_hits, s.sat, s.unsat, s.unknown, s.solver_us, s.max_us, esc(&e.solver.version), s.finite, s.finite_audited
    );
    o.push_str(",\"errors\":{");
    let v: Vec<String> = r.errors.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    o.push_str(&v.join(","));
    o.push_str("},\"viol_count\":{");
    let v: Vec<String> = r.viol_count.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    o.push_str(&v.join(","));
    o.push_str("},\"check_labels\":{");
    let v: Vec<String> = r.check_labels.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    o.push_str(&v.join(","));
    o.push_str("},\"reach\":{");
    let v: Vec<String> = r.reach.iter().map(|(k, n)| format!("{}:[{},\"{}\"]", esc(k), n.0, hex(&n.1))).collect();
    o.push_str(&v.join(","));
    o.push_str("},\"violations\":[");
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| esc(s)).collect();
            format!(
                "{{\"kind\":{},\"label\":{},\"bytes\":\"{}\",\"stack\":[{}],\"obs\":{}}}",
                esc(&v.kind), esc(&v.label), hex(&v.bytes), st.join(","), nums(&v.obs)
            )
        })
        .collect();
    o.push_str(&v.join(","));
    o.push_str("],\"samples\":[");
    let v: Vec<String> = r.samples.iter().map(|s| format!("{{\"bytes\":\"{}\",\"obs\":{}}}", hex(&s.bytes), nums(&s.obs))).collect();
    o.push_str(&v.join(","));
    o.push_str("],\"functions\":{");
    let v: Vec<String> = e
        .m
        .funcs
        .iter()
        .enumerate()
        .filter(|(i, f)| e.fcount[*i] > 0 && f.defined)
        .map(|(i, f)| format!("{}:{}", esc(&f.name), e.fcount[i]))
        .collect();
    o.push_str(&v.join(","));
    o.push_str("}}\n");
    o
}

fn main() {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let av: Vec<String> = std::env::args().collect();
    if av.len() > 1 && av[1] == "selftest" {
        let n = av.get(2).and_then(|x| x.parse().ok()).unwrap_or(20000);
        let bad = expr::selftest(n);
        println!("selftest: {} rounds, {} mismatches", n, bad);
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    let mut i = 1;
    while i + 1 < av.len() {
        a.insert(av[i].trim_start_matches("--").to_string(), av[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let text = std::fs::read_to_string(get("ll", "")).expect("read ll");
    let m: &'static ir::Module = Box::leak(Box::new(ir::parse_module(&text)));
    drop(text);
    let solver = solver::Solver::new(&get("z3", "libz3.so"), get("rlimit", "200000000").parse().unwrap());
    let opts = Opts {
        params: get("params", "").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
        max_steps: get("max-steps", "3000000").parse().unwrap(),
        max_viol: get("max-viol", "2").parse().unwrap(),
        samples: get("samples", "8").parse().unwrap(),
        ite_max: 600,
    };
    let out = get("out", "/tmp/lsx-out");
    std::fs::create_dir_all(&out).unwrap();
    let jobs: usize = get("jobs", "1").parse().unwrap();
    let limit: f64 = get("time", "600").parse().unwrap();
    let stop_first = get("stop-first", "0") == "1";
    let mut e = Engine::new(m, solver, opts);
    if let Some(d) = a.get("dump") {
        let (dir, ev) = d.split_once(':').unwrap();
        e.solver.dump = Some((dir.to_string(), ev.parse().unwrap(), 0));
    }
    let st = match e.init_state(&get("fn", "")) {
        Some(s) => s,
        None => {
            eprintln!("no function {}", get("fn", ""));
            std::process::exit(3);
        }
    };
    e.work.push(st);
    let t0 = Instant::now();
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        fcntl(fds[0], 4, 0o4000); // O_NONBLOCK
        let tok = vec![b'x'; jobs.saturating_sub(1)];
        if !tok.is_empty() {
            write(fds[1], tok.as_ptr(), tok.len());
        }
    }
    let mut kids: Vec<i32> = vec![];
    let mut is_child = false;
    let mut last_fork = Instant::now();
    e.set_deadline(t0, limit);
    loop {
        let st = match e.work.pop() {
            Some(s) => s,
            None => break,
        };
        if t0.elapsed().as_secs_f64() > limit || (stop_first && !e.rep.violations.is_empty()) {
            e.rep.incomplete = true;
            e.rep.states_left += 1 + e.work.len() as u64;
            break;
        }
        e.run(st);
        if jobs > 1 && e.work.len() >= 2 && last_fork.elapsed().as_millis() >= 15 {
            let mut b = [0u8; 1];
            if unsafe { read(fds[0], b.as_mut_ptr(), 1) } == 1 {
                last_fork = Instant::now();
                let p = unsafe { fork() };
                if p == 0 {
                    is_child = true;
                    kids.clear();
                    e.reset_report();
                    let mut n = 0;
                    e.work.retain(|_| {
                        n += 1;
                        n % 2 == 1
                    });
                } else if p > 0 {
                    kids.push(p);
                    let mut n = 0;
                    e.work.retain(|_| {
                        n += 1;
                        n % 2 == 0
                    });
                } else {
                    unsafe { write(fds[1], b.as_ptr(), 1) };
                }
            }
        }
    }
    if is_child {
        unsafe { write(fds[1], b"x".as_ptr(), 1) };
    }
    let mut exit = "ok".to_string();
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0) };
        if s != 0 {
            exit = format!("child status {:#x}", s);
        }
    }
    let txt = report(&e, &exit);
    std::fs::write(format!("{}/r-{}.json", out, std::process::id()), txt).unwrap();
    if is_child {
        unsafe { _exit(0) };
    }
}
