//! Seeded search over many runs, minimisation of failures, evidence.
use crate::exec::{self, harness_error};
use crate::props::{self, Env, Verdict};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

#[derive(Serialize, Deserialize, Default)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    checks: u64,
    children: u64,
    sigs: BTreeSet<u64>,
    sched_sigs: BTreeSet<u64>,
    faults: BTreeMap<String, u64>,
    sim_ms: u128,
    points: u64,
    switches: u64,
    futex: u64,
    clock_reads: u64,
    draws: u64,
    reruns: u64,
    mismatches: u64,
    panicked: u64,
    renders: u64,
    requests: u64,
    threads: BTreeMap<usize, u64>,
    samples: Vec<serde_json::Value>,
    violation: Option<(u64, Run, String, String)>,
    stopped_by_clock: bool,
    tokens: Vec<(String, (i64, u32))>,
}

pub struct Plan { pub prop: String, pub tier: String, pub seed: u64, pub runs: u64, pub cap_s: u64, pub workers: u64, pub root: PathBuf }

/// (quick, thorough) number of runs
pub fn run_count(prop: &str, thorough: bool) -> u64 {
    let q = match prop { "C01" => 3600, "C02" => 6000, "C03" => 6000, "C04" => 6000, "C05" => 1300, "C06" => 1500, "C07" => 1300, "C08" => 900, "C09" => 2400, "C10" => 2600, "C11" => 2400, "C12" => 1400, "C13" => 450, _ => 100 };
    if thorough { q * 20 } else { q }
}

fn worker(plan: &Plan, w: u64, min: &AtomicU64, start: Instant) -> Stats {
    let mut st = Stats::default();
    let mut env = Env::default();
    let mut i = w;
    while i < plan.runs {
        if i > min.load(SeqCst) { break; }
        if start.elapsed().as_secs() > plan.cap_s { st.stopped_by_clock = true; break; }
        let seed = props::run_seed(plan.seed, &plan.prop, i);
        let run = props::gen(&plan.prop, seed);
        let t0 = Instant::now();
        let mut v = props::check(&mut env, &run);
        if std::env::var_os("SIM_TIME").is_some() { eprintln!("TIME {i} {} ms, {} points, {} switches, {:?}, {} bytes of text", t0.elapsed().as_millis(), v.out.points, v.out.switches.len(), run.sched, serde_json::to_string(&run.threads).unwrap().len()); }
        if i % 23 == 0 && v.viol.is_none() {
            // the same run once more: the simulation must be exactly repeatable
            let again = if plan.prop == "C11" { props::check(&mut env, &run).out } else { env.run(&run) };
            st.reruns += 1;
            if again != v.out {
                st.mismatches += 1;
                if std::env::var_os("SIM_DEBUG").is_some() {
                    eprintln!("MISMATCH run {i}: {}", serde_json::to_string(&run).unwrap());
                    eprintln!("A {:?}\nB {:?}", again, v.out);
                }
                if plan.prop == "C10" {
                    let d = again.res.iter().zip(&v.out.res).find(|(a, b)| a.out != b.out);
                    if let Some((a, b)) = d { v.viol = Some(("nondeterminism".into(), format!("two executions of the same run differ: {:?} / {:?}", a.out, b.out))); }
                }
            }
        }
        account(&mut st, &run, &v, i);
        if let (Some((c, _)), true) = (&v.viol, std::env::var_os("SIM_COUNT").is_some()) { eprintln!("COUNT {i} {c} {:?} {} threads", run.sched, run.threads.len()); v.viol = None; }
        if let Some((c, m)) = v.viol {
            min.fetch_min(i, SeqCst);
            st.violation = Some((i, run, c, m));
            break;
        }
        i += plan.workers;
    }
    st.children = env.children;
    st.tokens = env.tokens;
    st
}
fn account(st: &mut Stats, run: &Run, v: &Verdict, i: u64) {
    st.runs += 1;
    st.checks += v.checks;
    if v.nontrivial { st.nontrivial += 1; st.sigs.insert(v.sig); st.sched_sigs.insert(v.sched_sig); }
    for (k, n) in &v.out.faults { *st.faults.entry(k.clone()).or_default() += n; }
    st.sim_ms += v.out.sim_ms as u128;
    st.points += v.out.points;
    st.switches += v.out.switches.len() as u64 - (!v.out.switches.is_empty()) as u64;
    st.futex += v.out.futex_waits;
    st.clock_reads += v.out.clock_reads;
    st.draws += v.out.random_draws;
    *st.threads.entry(run.threads.len()).or_default() += 1;
    for r in &v.out.res { if r.out.is_some() { st.renders += 1; } if r.panic.is_some() { st.panicked += 1; } st.requests += r.reqs.len() as u64; }
    if st.samples.is_empty() && v.nontrivial && i > 0 {
        st.samples.push(serde_json::json!({ "index": i, "seed": run.seed, "threads": run.threads.len(), "servers": run.net.iter().map(|s| format!("{} {} connect={:?} tail={:?} cuts={:?}", s.url, s.script.kind, s.script.connect, s.script.tail, s.script.cuts)).collect::<Vec<_>>(), "first_thread": serde_json::to_value(&run.threads[0]).unwrap(), "switches": v.out.switches.len(), "outputs": v.out.res.iter().filter_map(|r| r.out.clone()).collect::<Vec<_>>() }));
    }
}

pub fn shared() -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED { harness_error("mmap"); }
        let a = &*(p as *const AtomicU64);
        a.store(u64::MAX, SeqCst);
        a
    }
}

fn explore(plan: &Plan, start: Instant) -> Stats {
    let min = shared();
    let mut pipes = vec![];
    for w in 0..plan.workers {
        unsafe {
            let mut fds = [0i32; 2];
            if libc::pipe(fds.as_mut_ptr()) != 0 { harness_error("pipe"); }
            let pid = libc::fork();
            if pid < 0 { harness_error("fork"); }
            if pid == 0 {
                libc::close(fds[0]);
                for (fd, _) in &pipes { libc::close(*fd); }
                let st = worker(plan, w, min, start);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let ok = f.write_all(&serde_json::to_vec(&st).unwrap()).is_ok();
                libc::_exit(if ok { 0 } else { 3 });
            }
            libc::close(fds[1]);
            pipes.push((fds[0], pid));
        }
    }
    let mut total = Stats::default();
    for (fd, pid) in pipes {
        let mut buf = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_end(&mut buf);
        let mut s = 0;
        unsafe { libc::waitpid(pid, &mut s, 0) };
        let st: Stats = serde_json::from_slice(&buf).unwrap_or_else(|e| harness_error(&format!("worker result: {e}, status {s}")));
        total.runs += st.runs;
        total.nontrivial += st.nontrivial;
        total.checks += st.checks;
        total.children += st.children;
        total.sigs.extend(st.sigs);
        total.sched_sigs.extend(st.sched_sigs);
        for (k, n) in st.faults { *total.faults.entry(k).or_default() += n; }
        total.sim_ms += st.sim_ms;
        total.points += st.points;
        total.switches += st.switches;
        total.futex += st.futex;
        total.clock_reads += st.clock_reads;
        total.draws += st.draws;
        total.reruns += st.reruns;
        total.mismatches += st.mismatches;
        total.panicked += st.panicked;
        total.renders += st.renders;
        total.requests += st.requests;
        for (k, n) in st.threads { *total.threads.entry(k).or_default() += n; }
        if total.samples.len() < 3 { total.samples.extend(st.samples); }
        total.stopped_by_clock |= st.stopped_by_clock;
        total.tokens.extend(st.tokens);
        if let Some(v) = st.violation {
            if total.violation.as_ref().map(|o| o.0 > v.0).unwrap_or(true) { total.violation = Some(v); }
        }
    }
    total
}

// ---------------------------------------------------------------- minimisation

struct Min { class: String, deadline: Instant, env: Env, best: Run, msg: String, tries: u64 }
impl Min {
    fn time_left(&self) -> bool { Instant::now() < self.deadline }
    fn try_run(&mut self, r: Run) -> bool {
        if r == self.best || !self.time_left() { return false; }
        self.tries += 1;
        let v = props::check(&mut self.env, &r);
        match v.viol {
            Some((c, m)) if c == self.class => { self.best = r; self.msg = m; true }
            _ => false,
        }
    }
    /// remove chunks of a list as long as the violation stays
    fn shrink_list(&mut self, len: &dyn Fn(&Run) -> usize, remove: &dyn Fn(&mut Run, usize, usize)) {
        let mut chunk = (len(&self.best) / 2).max(1);
        loop {
            let mut i = 0;
            while i < len(&self.best) && self.time_left() {
                let n = chunk.min(len(&self.best) - i);
                let mut r = self.best.clone();
                remove(&mut r, i, n);
                if !self.try_run(r) { i += n; }
            }
            if chunk == 1 { break; }
            chunk /= 2;
        }
    }
}
fn docs_of(op: &mut Op) -> Option<&mut Vec<String>> { if let Op::Parse { doc, .. } = op { Some(doc) } else { None } }

fn minimise(run: Run, class: String, msg: String, secs: u64) -> (Run, String, u64) {
    let mut m = Min { class, deadline: Instant::now() + std::time::Duration::from_secs(secs), env: Env::default(), best: run, msg, tries: 0 };
    for _round in 0..3 {
        let before = serde_json::to_string(&m.best).unwrap();
        // threads
        for t in (0..m.best.threads.len()).rev() {
            if m.best.threads.len() < 2 { break; }
            let mut r = m.best.clone();
            r.threads.remove(t);
            if let SchedSpec::Explicit(v) = &mut r.sched { v.clear(); }
            m.try_run(r);
        }
        if m.best.threads.len() == 1 { let mut r = m.best.clone(); r.sched = SchedSpec::Seq; m.try_run(r); }
        // schedule
        if !matches!(m.best.sched, SchedSpec::Seq | SchedSpec::Explicit(_)) {
            let o = exec::execute(&m.best);
            if !o.switches.is_empty() { let mut r = m.best.clone(); r.sched = SchedSpec::Explicit(o.switches); m.try_run(r); }
        }
        // operations
        for t in 0..m.best.threads.len() {
            m.shrink_list(&|r| r.threads.get(t).map(|x| x.len()).unwrap_or(0), &|r, i, n| { r.threads[t].drain(i..i + n); });
        }
        if let SchedSpec::Explicit(_) = m.best.sched {
            m.shrink_list(&|r| if let SchedSpec::Explicit(v) = &r.sched { v.len() } else { 0 }, &|r, i, n| if let SchedSpec::Explicit(v) = &mut r.sched { v.drain(i..i + n); });
        }
        // documents: blocks, lines, words
        for t in 0..m.best.threads.len() {
            for k in 0..m.best.threads[t].len() {
                if docs_of(&mut m.best.threads[t][k].clone()).is_none() { continue; }
                m.shrink_list(&|r| docs_of(&mut r.threads[t][k].clone()).map(|d| d.len()).unwrap_or(0), &|r, i, n| { docs_of(&mut r.threads[t][k]).unwrap().drain(i..i + n); });
                let nb = docs_of(&mut m.best.threads[t][k].clone()).map(|d| d.len()).unwrap_or(0);
                for b in 0..nb {
                    for sep in ['\n', ' '] {
                        let get = |r: &Run| -> Vec<String> { docs_of(&mut r.threads[t][k].clone()).and_then(|d| d.get(b).cloned()).unwrap_or_default().split(sep).map(String::from).collect() };
                        m.shrink_list(&|r| { let n = get(r).len(); if n > 1 { n } else { 0 } }, &|r, i, n| { let mut v = get(r); v.drain(i..i + n); if let Some(d) = docs_of(&mut r.threads[t][k]) { d[b] = v.join(&sep.to_string()); } });
                    }
                }
                let mut r = m.best.clone();
                if let Op::Parse { act, policy, .. } = &mut r.threads[t][k] { *act = None; *policy = Policy::Plain; }
                m.try_run(r);
            }
        }
        // network
        m.shrink_list(&|r| r.net.len(), &|r, i, n| { r.net.drain(i..i + n); });
        for i in 0..m.best.net.len() {
            type F = fn(&mut Script);
            let fs: [F; 9] = [|s| s.cuts.clear(), |s| s.seg_ms = 0, |s| s.connect_ms = 0, |s| s.redirects = 0, |s| s.content_length = None, |s| s.hiccups.clear(), |s| s.tail = Tail::Eof, |s| s.status = 200, |s| { if s.body.len() > s.need { s.body.truncate(s.need) } }];
            for f in fs { let mut r = m.best.clone(); f(&mut r.net[i].script); m.try_run(r); }
        }
        // settings and surroundings
        for t in 0..m.best.threads.len() {
            for k in 0..m.best.threads[t].len() {
                type G = fn(&mut Cfg);
                let gs: [G; 9] = [|c| c.xhtml = false, |c| c.restricted = false, |c| c.lite = false, |c| c.images = true, |c| c.blocks = true, |c| c.raw = false, |c| c.rel = None, |c| c.san = San::Off, |c| c.sizes = false];
                for g in gs { let mut r = m.best.clone(); if let Op::New { cfg, .. } = &mut r.threads[t][k] { g(cfg); m.try_run(r); } }
            }
        }
        type H = fn(&mut Run);
        let hs: [H; 5] = [|r| r.env.clear(), |r| r.heap = 0, |r| r.hash_seed = 0, |r| r.tick = 1, |r| r.wall = (1_600_000_000, 0)];
        for h in hs { let mut r = m.best.clone(); h(&mut r); m.try_run(r); }
        if serde_json::to_string(&m.best).unwrap() == before || !m.time_left() { break; }
    }
    (m.best, m.msg, m.tries)
}

// ---------------------------------------------------------------- pinned scenarios and known findings

fn one(prop: &str, cfg: Cfg, doc: &str, netw: Vec<Server>) -> Run {
    Run { prop: prop.into(), seed: 1, hash_seed: 1, wall: (1_600_000_000, 0), tick: 1, env: vec![], heap: 0, sched: SchedSpec::Seq, net: netw, reps: 1, threads: vec![vec![Op::New { slot: 0, cfg: Cfg { sizes: false, ..cfg.clone() } }, Op::New { slot: 1, cfg }, Op::Parse { slot: 0, doc: vec![doc.into()], policy: Policy::Plain, act: None }, Op::Parse { slot: 1, doc: vec![doc.into()], policy: Policy::Plain, act: None }]] }
}
fn body(url: &str, b: &[u8]) -> Vec<Server> {
    vec![Server { url: url.into(), script: Script { kind: "hostile pinned".into(), connect: Connect::Ok, connect_ms: 0, redirects: 0, status: 200, content_length: None, ctype: None, extra: vec![], ranges: false, body: b.to_vec(), cuts: vec![], seg_ms: 0, hiccups: vec![], tail: Tail::Eof, truth: None, need: 0 } }]
}
/// Scenarios every check of the property runs first: past findings and listed known findings.
pub fn pinned(prop: &str) -> Vec<(&'static str, Run)> {
    let sized = Cfg { uid: Some("u1".into()), sizes: true, ..Default::default() };
    let u = "http://a.example/pic0.png";
    let d = format!("!{u}!");
    let mut v = vec![];
    match prop {
        "C01" => {
            v.push(("restricted-ampersand", one(prop, Cfg { restricted: true, ..sized.clone() }, "!http://a.example/pic0.png?a=1&b=2!", vec![])));
            v.push(("jpeg-app1-too-short", one(prop, sized.clone(), &d, body(u, b"\xff\xd8\xff\xe1\x00\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00"))));
            v.push(("bmp-min-height", one(prop, sized.clone(), &d, body(u, b"BM\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x01\0\0\0\0\0\0\x80\x01\0\x18\0"))));
            let mut jp2 = b"\0\0\0\x0cjP  \r\n\x87\n\0\0\0\x14ftypjp2 \0\0\0\0jp2 ".to_vec();
            jp2.extend([0u8; 40]);
            v.push(("jp2-zero-length-box", one(prop, sized.clone(), &d, body(u, &jp2))));
            let mut icns = b"icns\0\0\x01\0".to_vec();
            icns.extend(b"ic07\0\0\0\0");
            icns.extend([0u8; 248]);
            v.push(("icns-zero-length-entry", one(prop, sized.clone(), &d, body(u, &icns))));
            v.push(("multibyte-list-line-break", one(prop, sized, &format!("* привет\nмир {d}"), vec![])));
        }
        "C03" => {
            let mut r = one(prop, Cfg { restricted: true, ..sized }, "!http://a.example/pic0.png?a=1&b=2!", vec![]);
            r.threads[0].remove(2);
            r.threads[0].remove(0);
            v.push(("restricted-ampersand", r));
        }
        "C05" => {
            v.push(("clock-before-epoch", Run { wall: (-1, 0), threads: vec![vec![Op::New { slot: 0, cfg: Cfg::default() }, Op::Parse { slot: 0, doc: vec!["x[1]".into()], policy: Policy::Plain, act: None }]], ..one(prop, sized, "", vec![]) }));
        }
        "C07" => {
            let mk = |u: &str| Op::Set { slot: 0, set: Setting::Uid(u.into()) };
            let p = |s: &str| Op::Parse { slot: 0, doc: vec![s.into()], policy: Policy::Plain, act: None };
            v.push(("set-uid-after-render", Run { threads: vec![vec![Op::New { slot: 0, cfg: Cfg { uid: Some("u1".into()), ..Default::default() } }, p("*a* \"l\":http://x.example/"), mk("u2"), p("*a* \"l\":http://x.example/")]], ..one(prop, sized, "", vec![]) }));
        }
        "C11" => {
            let mk = |doc: &str| Run { threads: vec![vec![Op::New { slot: 0, cfg: Cfg { uid: Some("x".into()), ..Default::default() } }, Op::Parse { slot: 0, doc: vec![doc.into()], policy: Policy::Plain, act: None }]], ..one(prop, sized.clone(), "", vec![]) };
            v.push(("nested-marker", mk("==a== textileReftextileRef:x::x:1:shelve")));
            v.push(("self-referring-marker", mk("== textileRef:x[<notextile>:</notextile>]2:shelve ==")));
        }
        _ => {}
    }
    v
}
/// `known: property=<id> scenario=<name> <text>` lines of the known-findings file.
fn known(root: &Path, prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={prop} scenario=")) else { continue };
        let (name, what) = rest.split_once(' ').unwrap_or((rest, ""));
        m.insert(name.to_string(), what.to_string());
    }
    m
}

// ---------------------------------------------------------------- the check

fn write_replay(root: &Path, prop: &str, run: &Run, class: &str, msg: &str, original: u64) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{original:016x}.json"));
    let j = serde_json::json!({ "property": prop, "class": class, "violation": msg, "original_seed": original, "run": run });
    if std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).is_err() { harness_error("cannot write the replay file"); }
    p
}

pub fn check(plan: &Plan) -> i32 {
    let start = Instant::now();
    crate::seams::share_seen();
    let prop = plan.prop.as_str();
    println!("seed={} property={} tier={} runs={} workers={}", plan.seed, prop, plan.tier, plan.runs, plan.workers);
    let listed = known(&plan.root, prop);
    let mut env = Env::default();
    let mut violation: Option<(Run, String, String, u64)> = None;
    let mut findings = vec![];
    let scenarios = pinned(prop);
    for (name, run) in &scenarios {
        let v = props::check(&mut env, run);
        if let Some((c, m)) = v.viol {
            if let Some(what) = listed.get(*name) {
                println!("KNOWN-FINDING: property={prop} {what}");
                findings.push(format!("{name}: {m}"));
            } else if violation.is_none() {
                violation = Some((run.clone(), c, format!("scenario {name}: {m}"), run.seed));
            }
        }
    }
    let pinned_children = env.children;
    let mut st = if violation.is_none() { explore(plan, start) } else { Stats::default() };
    if let Some((_, run, c, m)) = st.violation.take() { let s = run.seed; violation = Some((run, c, m, s)); }
    if violation.is_none() {
        // tokens of parsers of different runs must differ as well
        st.tokens.sort();
        for w in st.tokens.windows(2) {
            if w[0].0 == w[1].0 && w[0].1 != w[1].1 {
                let run = props::pair_of_instants(w[0].1, w[1].1);
                if let Some((c, m)) = props::check(&mut env, &run).viol { violation = Some((run, c, m, plan.seed)); break; }
            }
        }
    }
    let explored = start.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((run, class, msg, seed)) = &violation {
        println!("violation ({class}) after {} runs: {msg}", st.runs);
        println!("minimising");
        let (min, mmsg, tries) = minimise(run.clone(), class.clone(), msg.clone(), if plan.tier == "thorough" { 240 } else { 90 });
        let mut e = Env::default();
        let again = props::check(&mut e, &min).viol.map(|x| x.0 == *class).unwrap_or(false);
        let (final_run, fmsg) = if again { (min, mmsg) } else { (run.clone(), msg.clone()) };
        let p = write_replay(&plan.root, prop, &final_run, class, &fmsg, *seed);
        println!("minimised in {tries} executions, {:.1} s; replay reproduces: {again}", start.elapsed().as_secs_f64() - explored);
        println!("minimal run: {}", serde_json::to_string(&final_run).unwrap());
        println!("what happens: {fmsg}");
        println!("VIOLATION property={prop} replay={}", p.display());
        code = 1;
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": prop, "tier": plan.tier, "seed": plan.seed, "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.sigs.len(),
            "rule": format!("one run = one seed = one generated program of parsers, documents, servers, clock and schedule, executed in a fresh process forked before any parser existed; non-trivial = at least one render was judged by the oracle; distinct = by hash of the complete history (schedule, renders, requests, clock). {} pinned scenarios ran before the search.", scenarios.len()),
            "samples": st.samples,
            "renders_judged": st.checks,
            "renders_completed": st.renders,
            "operations_unwound": st.panicked,
            "processes_simulated": st.children + pinned_children,
            "runs_per_hour": (st.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "simulated_seconds": (st.sim_ms / 1000) as u64,
            "seam_crossings": st.points,
            "control_flow_edges_of_rustextile": { "instrumented": crate::seams::EDGE_COUNT.load(SeqCst), "passed_by_some_run": crate::seams::edges_seen() },
            "preemptions": st.switches,
            "futex_waits": st.futex,
            "clock_readings": st.clock_reads,
            "random_draws": st.draws,
            "requests": st.requests,
            "faults_injected": st.faults,
            "threads_per_run": st.threads,
            "distinct_schedules_and_fault_sequences": st.sched_sigs.len(),
            "repeatability": { "runs_executed_twice": st.reruns, "histories_that_differed": st.mismatches },
            "stopped_by_wall_clock": st.stopped_by_clock,
            "known_findings_reproduced": findings,
            "real_code": ["rustextile (all of /repo/src)", "regex, fancy-regex, url, ammonia/html5ever, imageinfo, lazy_static, std collections and synchronisation"],
            "stubbed": ["reqwest (blocking facade whose transport is the simulated network)", "clock, sleep, randomness, futex and yield system calls", "allocation (system allocator behind a counting, preempting front)"],
        },
        "assumptions": ["the simulated reqwest behaves like the real blocking client for the calls rustextile makes (DESIGN.md, Fidelity)", "preemption happens only at edges of rustextile's control flow, allocations, futex operations, yields, network calls and hook calls"],
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = plan.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).is_err() { harness_error("cannot write evidence"); }
    println!("{} runs ({} distinct non-trivial), {} renders judged, {} processes, {} s simulated, {:.1} s; repeatability {}/{} ; faults {:?}", st.runs, st.sigs.len(), st.checks, st.children, st.sim_ms / 1000, wall, st.reruns - st.mismatches, st.reruns, st.faults);
    code
}

pub fn replay(file: &str) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")))).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")));
    let run: Run = serde_json::from_value(j["run"].clone()).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")));
    let mut env = Env::default();
    let v = props::check(&mut env, &run);
    let second = props::check(&mut env, &run);
    println!("history {:016x}, second execution {:016x}", v.sig, second.sig);
    for r in &v.out.res { println!("thread {} op {}: {}", r.thread, r.op, r.out.as_ref().map(|o| format!("{o:?}")).or(r.panic.as_ref().map(|p| format!("PANIC {p}"))).unwrap_or_default()); }
    match v.viol {
        Some((c, m)) => { println!("violation ({c}): {m}"); println!("VIOLATION property={} replay={}", run.prop, file); 1 }
        None => { println!("the property held on this run"); 0 }
    }
}

/// Runs many seeds twice, in several worker layouts, and compares complete histories.
pub fn determinism(n: u64, seed: u64) -> i32 {
    let mut all: Vec<BTreeMap<String, u64>> = vec![];
    for workers in [8u64, 3] {
        let mut m = BTreeMap::new();
        let mut pipes = vec![];
        for w in 0..workers {
            unsafe {
                let mut fds = [0i32; 2];
                libc::pipe(fds.as_mut_ptr());
                if libc::fork() == 0 {
                    let mut out = BTreeMap::new();
                    let mut k = 0;
                    for p in props::ALL {
                        for i in 0..n {
                            k += 1;
                            if k % workers != w { continue; }
                            let run = props::gen(p, props::run_seed(seed, p, i));
                            let o = exec::execute(&run);
                            out.insert(format!("{p}/{i}"), crate::rng::fnv(serde_json::to_string(&o).unwrap().as_bytes()));
                        }
                    }
                    let mut f = std::fs::File::from_raw_fd(fds[1]);
                    let _ = f.write_all(&serde_json::to_vec(&out).unwrap());
                    libc::_exit(0);
                }
                libc::close(fds[1]);
                pipes.push(fds[0]);
            }
        }
        for fd in pipes {
            let mut b = vec![];
            let _ = unsafe { std::fs::File::from_raw_fd(fd) }.read_to_end(&mut b);
            m.extend(serde_json::from_slice::<BTreeMap<String, u64>>(&b).unwrap());
        }
        all.push(m);
    }
    let bad: Vec<_> = all[0].iter().filter(|(k, v)| all[1].get(*k) != Some(v)).map(|(k, _)| k.clone()).collect();
    let digest = crate::rng::fnv(serde_json::to_string(&all[0]).unwrap().as_bytes());
    println!("{} runs, executed twice (8 and 3 workers): {} differ {:?}; digest {digest:016x}", all[0].len(), bad.len(), bad.iter().take(10).collect::<Vec<_>>());
    (!bad.is_empty()) as i32
}
