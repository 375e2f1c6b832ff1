mod exec;
mod fx;
#[allow(dead_code)]
mod ir;
#[allow(dead_code)]
mod lower;
mod solver;
mod term;

use exec::*;
use lower::V;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
}

#[derive(Default)]
struct Out {
    done: u64,
    panics: u64,
    infeasible: u64,
    incomplete: BTreeMap<String, u64>,
    truncated: u64,
    samples: Vec<(Vec<u64>, Vec<u64>, bool, u64)>,
    viol: Vec<(String, String, Vec<u64>, String, Vec<String>)>, // kind msg inputs native trace
    unconf: Vec<(String, String, Vec<u64>, String)>,
    covers: u64,
    cnt: Cnt,
    st: solver::Stats,
    seen: BTreeSet<(u32, u32)>,
    obs_max: u64,
}

impl Out {
    fn merge(&mut self, o: Out) {
        self.done += o.done;
        self.panics += o.panics;
        self.infeasible += o.infeasible;
        self.truncated += o.truncated;
        for (k, v) in o.incomplete {
            *self.incomplete.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.viol.extend(o.viol);
        self.unconf.extend(o.unconf);
        self.covers |= o.covers;
        let (a, b) = (&mut self.cnt, o.cnt);
        a.forks += b.forks;
        a.checks += b.checks;
        a.checks_solver += b.checks_solver;
        a.checks_trivial += b.checks_trivial;
        a.decisions += b.decisions;
        a.implied += b.implied;
        a.unknown += b.unknown;
        a.steps += b.steps;
        let (a, b) = (&mut self.st, o.st);
        a.queries += b.queries;
        a.sat += b.sat;
        a.unsat += b.unsat;
        a.unknown += b.unknown;
        a.nanos += b.nanos;
        self.seen.extend(o.seen);
        self.obs_max = self.obs_max.max(o.obs_max);
    }
    fn ser(&self) -> String {
        let mut s = String::new();
        let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let c = &self.cnt;
        let t = &self.st;
        let _ = writeln!(
            s,
            "C\t{} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
            self.done, self.panics, self.infeasible, self.truncated, self.covers, c.forks, c.checks, c.checks_solver, c.checks_trivial, c.decisions, c.implied, c.unknown, c.steps, t.queries,
            t.sat, t.unsat, t.unknown, t.nanos, self.obs_max
        );
        for (k, v) in &self.incomplete {
            let _ = writeln!(s, "I\t{}\t{}", v, k.replace(['\n', '\t'], " "));
        }
        for (i, o, p, cv) in &self.samples {
            let _ = writeln!(s, "S\t{}\t{}\t{}\t{}", j(i), j(o), *p as u8, cv);
        }
        for (k, m, i, n, t) in &self.viol {
            let _ = writeln!(s, "V\t{}\t{}\t{}\t{}\t{}", k, m.replace(['\n', '\t'], " "), j(i), n.replace(['\n', '\t'], " "), t.join(","));
        }
        for (k, m, i, n) in &self.unconf {
            let _ = writeln!(s, "U\t{}\t{}\t{}\t{}", k, m.replace(['\n', '\t'], " "), j(i), n.replace(['\n', '\t'], " "));
        }
        for (a, b) in &self.seen {
            let _ = writeln!(s, "F\t{} {}", a, b);
        }
        s.push_str("END\n");
        s
    }
    fn de(s: &str) -> Option<Out> {
        let mut o = Out::default();
        let nums = |t: &str| -> Vec<u64> { t.split_whitespace().filter_map(|x| x.parse().ok()).collect() };
        let mut ok = false;
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "C" => {
                    let n = nums(f[1]);
                    o.done = n[0];
                    o.panics = n[1];
                    o.infeasible = n[2];
                    o.truncated = n[3];
                    o.covers = n[4];
                    o.cnt = Cnt { forks: n[5], checks: n[6], checks_solver: n[7], checks_trivial: n[8], decisions: n[9], implied: n[10], unknown: n[11], steps: n[12] };
                    o.st = solver::Stats { queries: n[13], sat: n[14], unsat: n[15], unknown: n[16], nanos: n[17] };
                    o.obs_max = n[18];
                }
                "I" => {
                    o.incomplete.insert(f[2].into(), f[1].parse().unwrap());
                }
                "S" => o.samples.push((nums(f[1]), nums(f[2]), f[3] == "1", f[4].parse().unwrap_or(0))),
                "V" => o.viol.push((f[1].into(), f[2].into(), nums(f[3]), f[4].into(), f[5].split(',').map(|x| x.to_string()).collect())),
                "U" => o.unconf.push((f[1].into(), f[2].into(), nums(f[3]), f[4].into())),
                "F" => {
                    let n = nums(f[1]);
                    o.seen.insert((n[0] as u32, n[1] as u32));
                }
                "END" => ok = true,
                _ => {}
            }
        }
        if ok {
            Some(o)
        } else {
            None
        }
    }
}

struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    paths: AtomicU64,
}

struct Cfg {
    runner: String,
    scen: String,
    deadline: Instant,
    tmp: String,
    max_paths: u64,
    max_samples: usize,
    keep_going: bool,
    known: Vec<String>,
}

/// replays inputs natively: (violation observed?, description)
fn native(cfg: &Cfg, inputs: &[u64], kind: &str) -> (bool, String) {
    if cfg.runner.is_empty() {
        return (true, "not replayed".into());
    }
    let f = format!("{}/replay-{}-{}.txt", cfg.tmp, cfg.scen, std::process::id());
    let txt: String = inputs.iter().map(|x| format!("{}\n", x)).collect();
    let _ = std::fs::write(&f, txt);
    let run = |vg: bool| {
        let mut c = if vg {
            let mut c = std::process::Command::new("valgrind");
            c.args(["-q", "--error-exitcode=77", "--leak-check=no", &cfg.runner]);
            c
        } else {
            std::process::Command::new(&cfg.runner)
        };
        c.args(["run", &cfg.scen, &f]);
        match c.output() {
            Ok(o) => {
                let code = o.status.code().unwrap_or(-1);
                let s = String::from_utf8_lossy(&o.stdout).into_owned();
                let line = s.lines().rev().find(|l| l.starts_with("RESULT ")).unwrap_or("RESULT died").to_string();
                let e = String::from_utf8_lossy(&o.stderr).into_owned();
                (code, line, e)
            }
            Err(e) => (-2, format!("could not run: {}", e), String::new()),
        }
    };
    let (code, line, err) = run(false);
    let mut r = (code == 1 || code == -1 || code == 134 || code == 139, line, err);
    if !r.0 && kind == "ub" {
        let (code, _, err) = run(true);
        if code == 77 || code == -1 {
            r = (true, "RESULT valgrind error".into(), err);
        }
    }
    let _ = std::fs::remove_file(&f);
    let head: String = r.2.lines().take(4).collect::<Vec<_>>().join(" | ");
    (r.0, format!("{} {}", r.1, head))
}

fn finish(ex: &mut Ex, e: End, out: &mut Out, cfg: &Cfg, sh: &Shared) {
    let mut cands: Vec<(String, String, Vec<u64>, Vec<String>)> = vec![];
    for v in std::mem::take(&mut ex.pending) {
        cands.push((v.kind, v.msg, v.inputs, v.trace));
    }
    sh.paths.fetch_add(1, SeqCst);
    let mut sample = false;
    let mut panicked = false;
    match e {
        End::Done => {
            out.done += 1;
            sample = true;
        }
        End::ExpectedPanic => {
            out.panics += 1;
            sample = true;
            panicked = true;
        }
        End::Infeasible => out.infeasible += 1,
        End::Bad(k, m) => {
            let model = ex.st.model.clone();
            let inp = ex.inputs_under(&model);
            let bt = ex.backtrace();
            cands.push((k, m, inp, bt));
        }
        End::Incomplete(m) => {
            *out.incomplete.entry(m).or_default() += 1;
        }
    }
    out.covers |= ex.st.covers;
    if sample {
        let n = out.done + out.panics;
        if out.samples.len() < cfg.max_samples && (n <= 4 || n.is_power_of_two() || n % 37 == 0) {
            let model = ex.st.model.clone();
            let inp = ex.inputs_under(&model);
            let obs: Vec<V> = ex.st.obs.clone();
            let o = obs.iter().map(|v| ex.evalv(v)).collect();
            out.samples.push((inp, o, panicked, ex.st.covers));
        }
    }
    for (k, m, inp, bt) in cands {
        if out.unconf.iter().filter(|u| u.1 == m).count() >= 3 || out.viol.iter().filter(|u| u.1 == m).count() >= 2 {
            continue;
        }
        let (conf, line) = native(cfg, &inp, &k);
        if conf {
            let is_known = cfg.known.iter().any(|s| !s.is_empty() && (line.contains(s.as_str()) || m.contains(s.as_str())));
            out.viol.push((k, m, inp, line, bt));
            if !cfg.keep_going && !is_known {
                sh.stop.store(1, SeqCst);
            }
        } else {
            out.unconf.push((k, m, inp, line));
        }
    }
}

fn collect(ex: &Ex, out: &mut Out) {
    out.cnt = ex.cnt.clone();
    out.st = ex.so.stats;
    for f in ex.funcs.iter().flatten() {
        for (i, b) in f.seen.borrow().iter().enumerate() {
            if *b {
                out.seen.insert((f.id, i as u32));
            }
        }
    }
}

fn explore(ex: &mut Ex, cfg: &Cfg, jobs: usize, sh: &Shared) -> Out {
    let mut out = Out::default();
    ex.cnt = Cnt::default();
    ex.so.stats = Default::default();
    sh.next.store(0, SeqCst);
    sh.stop.store(0, SeqCst);
    sh.paths.store(0, SeqCst);
    if let Err(Stop::Incomplete(m)) = ex.start(&cfg.scen) {
        *out.incomplete.entry(m).or_default() += 1;
        return out;
    }
    let target = if jobs > 1 { jobs * 60 } else { usize::MAX };
    // breadth first until there is enough work
    let first = ex.st.clone();
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(first);
    let stopnow = |sh: &Shared| sh.stop.load(SeqCst) != 0 || Instant::now() > cfg.deadline || sh.paths.load(SeqCst) >= cfg.max_paths;
    while let Some(s) = if jobs > 1 { queue.pop_front() } else { queue.pop_back() } {
        if stopnow(sh) {
            out.truncated += 1 + queue.len() as u64;
            queue.clear();
            break;
        }
        ex.st = s;
        ex.work.clear();
        let e = ex.run();
        finish(ex, e, &mut out, cfg, sh);
        queue.extend(ex.work.drain(..));
        if queue.len() >= target {
            break;
        }
    }
    if queue.is_empty() {
        collect(ex, &mut out);
        return out;
    }
    let mut states: Vec<Option<St>> = queue.into_iter().map(Some).collect();
    // spread neighbouring states over the workers
    let mut rng = 0x9e3779b97f4a7c15u64;
    for i in (1..states.len()).rev() {
        rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let j = (rng >> 33) as usize % (i + 1);
        states.swap(i, j);
    }
    let mut pids = vec![];
    collect(ex, &mut out);
    for w in 0..jobs {
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut o = Out::default();
            ex.cnt = Cnt::default();
            ex.so.stats = Default::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                loop {
                    let i = sh.next.fetch_add(1, SeqCst) as usize;
                    if i >= states.len() {
                        break;
                    }
                    ex.work.clear();
                    let mut cur = states[i].take();
                    while let Some(s) = cur.take() {
                        if stopnow(sh) {
                            o.truncated += 1 + ex.work.len() as u64;
                            break;
                        }
                        ex.st = s;
                        let e = ex.run();
                        finish(ex, e, &mut o, cfg, sh);
                        cur = ex.work.pop();
                    }
                }
            }));
            if let Err(e) = r {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                *o.incomplete.entry(format!("engine error: {} in {}", m, ex.st.top.f.name)).or_default() += 1;
            }
            collect(ex, &mut o);
            let _ = std::fs::write(format!("{}/w{}", cfg.tmp, w), o.ser());
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    for p in &pids {
        let mut s = 0;
        unsafe { waitpid(*p, &mut s, 0) };
    }
    for w in 0..jobs {
        let f = format!("{}/w{}", cfg.tmp, w);
        match std::fs::read_to_string(&f).ok().and_then(|s| Out::de(&s)) {
            Some(o) => out.merge(o),
            None => {
                *out.incomplete.entry("a worker process died".into()).or_default() += 1;
            }
        }
        let _ = std::fs::remove_file(&f);
    }
    out
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut ll, mut runner, mut scens, mut outf, mut tmp) = (String::new(), String::new(), vec![], String::new(), String::from("/tmp"));
    let (mut jobs, mut secs, mut max_paths, mut keep) = (8usize, 600f64, u64::MAX, false);
    let mut known = vec![];
    let mut verbose = false;
    while let Some(k) = a.next() {
        let mut n = || a.next().expect("argument");
        match k.as_str() {
            "--ll" => ll = n(),
            "--runner" => runner = n(),
            "--scen" => scens.extend(n().split(',').map(|s| s.to_string())),
            "--out" => outf = n(),
            "--tmp" => tmp = n(),
            "--jobs" => jobs = n().parse().unwrap(),
            "--time" => secs = n().parse().unwrap(),
            "--max-paths" => max_paths = n().parse().unwrap(),
            "--keep-going" => keep = true,
            "--known" => known.push(n()),
            "-v" => verbose = true,
            k => {
                eprintln!("unknown option {}", k);
                std::process::exit(2)
            }
        }
    }
    let start = Instant::now();
    let _ = std::fs::create_dir_all(&tmp);
    let text = match std::fs::read_to_string(&ll) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", ll, e);
            std::process::exit(2)
        }
    };
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse {}: {}", ll, e);
            std::process::exit(2)
        }
    };
    let sh: &Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    let deadline = start + Duration::from_secs_f64(secs);
    let mut json = String::from("{\"scenarios\":[\n");
    let mut first = true;
    let mut allseen: BTreeSet<(u32, u32)> = BTreeSet::new();
    let ns = scens.len();
    for (si, sc) in scens.iter().enumerate() {
        let t0 = Instant::now();
        // every scenario gets a fair share of the remaining time
        let left = deadline.saturating_duration_since(t0).as_secs_f64();
        let (sc, share) = match sc.split_once('@') {
            Some((n, t)) => (n.to_string(), t.parse::<f64>().unwrap_or(left).min(left)),
            None => (sc.clone(), (left / (ns - si) as f64 * 2.0).min(left)),
        };
        let sc = &sc;
        let cfg = Cfg {
            runner: runner.clone(),
            scen: sc.clone(),
            deadline: t0 + Duration::from_secs_f64(share),
            tmp: tmp.clone(),
            max_paths,
            max_samples: 12,
            keep_going: keep,
            known: known.clone(),
        };
        let mut ex = Ex::new(&m);
        let o = explore(&mut ex, &cfg, jobs, sh);
        let wall = t0.elapsed().as_secs_f64();
        if verbose {
            eprintln!(
                "{}: done {} panics {} infeasible {} truncated {} forks {} decisions {} implied {} checks {} ({} solver) steps {} queries {} (sat {} unsat {} unk {}) solver {:.2}s wall {:.2}s covers {:#x}",
                sc, o.done, o.panics, o.infeasible, o.truncated, o.cnt.forks, o.cnt.decisions, o.cnt.implied, o.cnt.checks, o.cnt.checks_solver, o.cnt.steps, o.st.queries, o.st.sat, o.st.unsat, o.st.unknown,
                o.st.nanos as f64 / 1e9, wall, o.covers
            );
            for (k, v) in &o.incomplete {
                eprintln!("  incomplete x{}: {}", v, k);
            }
            for v in &o.viol {
                eprintln!("  VIOL {} {} {:?} | {} | {:?}", v.0, v.1, v.2, v.3, v.4);
            }
            for v in &o.unconf {
                eprintln!("  UNCONFIRMED {} {} {:?} | {}", v.0, v.1, v.2, v.3);
            }
        }
        if !first {
            json.push_str(",\n");
        }
        first = false;
        let arr = |v: &[u64]| format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","));
        let _ = write!(
            json,
            "{{\"scenario\":{},\"done\":{},\"expected_panics\":{},\"infeasible\":{},\"truncated\":{},\"forks\":{},\"decisions\":{},\"implied\":{},\"checks\":{},\"checks_solver\":{},\"checks_trivial\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"covers\":{},",
            esc(sc), o.done, o.panics, o.infeasible, o.truncated, o.cnt.forks, o.cnt.decisions, o.cnt.implied, o.cnt.checks, o.cnt.checks_solver, o.cnt.checks_trivial, o.cnt.steps, o.st.queries, o.st.sat, o.st.unsat,
            o.st.unknown, o.st.nanos as f64 / 1e9, wall, o.covers
        );
        let inc: Vec<String> = o.incomplete.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let _ = write!(json, "\"incomplete\":{{{}}},", inc.join(","));
        let sm: Vec<String> = o.samples.iter().map(|(i, b, p, c)| format!("{{\"inputs\":{},\"obs\":{},\"panic\":{},\"covers\":{}}}", arr(i), arr(b), p, c)).collect();
        let _ = write!(json, "\"samples\":[{}],", sm.join(","));
        let vs: Vec<String> = o
            .viol
            .iter()
            .map(|(k, m, i, n, t)| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"native\":{},\"trace\":[{}]}}", esc(k), esc(m), arr(i), esc(n), t.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")))
            .collect();
        let _ = write!(json, "\"violations\":[{}],", vs.join(","));
        let us: Vec<String> = o.unconf.iter().map(|(k, m, i, n)| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"native\":{}}}", esc(k), esc(m), arr(i), esc(n))).collect();
        let _ = write!(json, "\"unconfirmed\":[{}]}}", us.join(","));
        allseen.extend(o.seen);
        if sh.stop.load(SeqCst) != 0 && !keep {
            break;
        }
    }
    json.push_str("\n],\n\"functions\":[");
    // names of the functions whose code was executed, including inlined ones
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut parsed: BTreeMap<u32, ir::Func> = BTreeMap::new();
    for (f, b) in &allseen {
        let name = &m.func_order[*f as usize];
        if !parsed.contains_key(f) {
            if let Ok(pf) = m.parse_func(name) {
                names.insert(name.clone());
                parsed.insert(*f, pf);
            }
        }
        if let Some(pf) = parsed.get(f) {
            for i in &pf.blocks[*b as usize].ins {
                if i.dbg != u32::MAX {
                    for n in m.dbg_subprograms(i.dbg) {
                        names.insert(n);
                    }
                }
            }
        }
    }
    json.push_str(&names.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","));
    let _ = write!(json, "],\n\"solver\":{},\"wall_s\":{:.3}}}\n", esc(&solver::version()), start.elapsed().as_secs_f64());
    if outf.is_empty() {
        if !verbose {
            println!("{}", json);
        }
    } else {
        let mut f = std::fs::File::create(&outf).expect("out");
        f.write_all(json.as_bytes()).expect("out");
    }
}
