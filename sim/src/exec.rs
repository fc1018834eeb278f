//! Executes one `Run` in a forked child of a pristine process, and hands back its `Outcome`.
use crate::net::{self, SimTransport};
use crate::rng::Rng;
use crate::seams::{self, Mode, Point, Sched, MAXT};
use crate::spec::*;
use rustextile::ammonia::{Builder, UrlRelative};
use rustextile::{HtmlKind, Textile};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::AtomicI32;

thread_local! {
    static SLOTS: RefCell<Vec<Option<Rc<Textile>>>> = const { RefCell::new(Vec::new()) };
    static HOOK: RefCell<Vec<HookCtx>> = const { RefCell::new(Vec::new()) };
}
struct HookCtx { policy: Policy, act: Option<HookAct>, log: Vec<Policy>, inner: Vec<Res> }

fn hook<'a, 'b>(s: &'a mut Builder<'b>) -> &'a Builder<'b> {
    let q = seams::quiet();
    seams::point(Point::Hook);
    let (policy, act) = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        match h.last_mut() {
            Some(c) => { c.log.push(c.policy); (c.policy, c.act.take()) }
            None => (Policy::Plain, None),
        }
    });
    match act {
        Some(HookAct::Panic) => { *net::net().faults.entry("sanitizer hook panics".into()).or_default() += 1; drop(q); panic!("sanitizer hook panicked") }
        Some(HookAct::Render { slot, doc }) => {
            *net::net().faults.entry("re-entrant render".into()).or_default() += 1;
            let r = render(slot, &text(&doc), Policy::Plain, None);
            HOOK.with(|h| if let Some(c) = h.borrow_mut().last_mut() { c.inner.push(r) });
        }
        Some(HookAct::RenderThenPanic { slot, doc }) => {
            *net::net().faults.entry("sanitizer hook panics after a re-entrant render".into()).or_default() += 1;
            let r = render(slot, &text(&doc), Policy::Plain, None);
            HOOK.with(|h| if let Some(c) = h.borrow_mut().last_mut() { c.inner.push(r) });
            drop(q);
            panic!("sanitizer hook panicked")
        }
        None => {}
    }
    drop(q);
    decide(policy, s)
}
fn decide<'a, 'b>(policy: Policy, s: &'a mut Builder<'b>) -> &'a Builder<'b> {
    match policy {
        Policy::Plain => s,
        Policy::Rel => s.link_rel(Some("noopener")),
        Policy::NoImg => s.rm_tags(["img"]),
        Policy::NoLinks => s.rm_tags(["a"]),
        Policy::OnlyText => s.tags(Default::default()),
        Policy::Classes => s.add_generic_attributes(["class", "id"]),
        Policy::AbsoluteOnly => s.url_relative(UrlRelative::Deny),
    }
}
/// What sanitizing `page` under `policy` gives. Computed in a child, so that the process every
/// simulated run is forked from stays as it was.
pub fn sanitized(policy: Policy, page: &str) -> String {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 { harness_error("pipe"); }
        let pid = libc::fork();
        if pid < 0 { harness_error("fork"); }
        if pid == 0 {
            let mut b = Builder::default();
            b.link_rel(None);
            let out = decide(policy, &mut b).clean(page).to_string();
            let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]);
            libc::_exit(f.write_all(out.as_bytes()).is_err() as i32);
        }
        libc::close(fds[1]);
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let mut out = String::new();
        let ok = f.read_to_string(&mut out).is_ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !ok || st != 0 { harness_error("reference sanitizer"); }
        out
    }
}

/// Runs code under test: its allocations and seam crossings count, its panics are caught.
fn active<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let lvl = seams::set_level(0);
    let r = catch_unwind(AssertUnwindSafe(f));
    seams::set_level(lvl);
    r.map_err(|p| p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into()))
}

fn kind(x: bool) -> HtmlKind { if x { HtmlKind::XHTML } else { HtmlKind::HTML5 } }
fn sanitizer(t: Textile, s: San) -> Textile {
    match s { San::Off => t.set_sanitize(false), San::Default => t.set_sanitize(true), San::Hook => t.adjust_sanitizer(hook) }
}
pub fn build(c: &Cfg) -> Textile {
    let mut t = Textile::default();
    let d = Cfg::default();
    // only what differs from the documented defaults is set, so that the defaults are exercised too
    if let Some(u) = &c.uid { t = t.set_uid(u); }
    if c.xhtml != d.xhtml { t = t.set_html_kind(kind(c.xhtml)); }
    if c.restricted != d.restricted { t = t.set_restricted(c.restricted); }
    if c.lite != d.lite { t = t.set_lite(c.lite); }
    if c.images != d.images { t = t.set_images(c.images); }
    if c.blocks != d.blocks { t = t.set_block_tags(c.blocks); }
    if c.raw != d.raw { t = t.set_raw_blocks(c.raw); }
    if c.sizes != d.sizes { t = t.set_getting_image_size(c.sizes); }
    if c.rel != d.rel { t = t.set_rel(c.rel.as_deref()); }
    if c.san != d.san { t = sanitizer(t, c.san); }
    t
}
fn apply(t: Textile, s: &Setting) -> Textile {
    match s {
        Setting::Uid(u) => t.set_uid(u),
        Setting::Xhtml(b) => t.set_html_kind(kind(*b)),
        Setting::Restricted(b) => t.set_restricted(*b),
        Setting::Lite(b) => t.set_lite(*b),
        Setting::Images(b) => t.set_images(*b),
        Setting::Blocks(b) => t.set_block_tags(*b),
        Setting::Raw(b) => t.set_raw_blocks(*b),
        Setting::Sizes(b) => t.set_getting_image_size(*b),
        Setting::Rel(r) => t.set_rel(r.as_deref()),
        Setting::San(s) => sanitizer(t, *s),
    }
}
fn slot(i: usize) -> Option<Rc<Textile>> { SLOTS.with(|s| s.borrow().get(i).cloned().flatten()) }
fn put(i: usize, t: Option<Textile>) {
    let old = SLOTS.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() <= i { s.resize_with(i + 1, || None); }
        s[i].take()
    });
    if let Some(o) = old { let _ = active(move || drop(o)); }
    SLOTS.with(|s| s.borrow_mut()[i] = t.map(Rc::new));
}

/// One call of `parse`. Called with accounting off.
fn render(i: usize, txt: &str, policy: Policy, act: Option<HookAct>) -> Res {
    let mut r = Res::default();
    let Some(t) = slot(i) else { r.skipped = true; return r };
    let me = seams::tid() as usize;
    HOOK.with(|h| h.borrow_mut().push(HookCtx { policy, act, log: vec![], inner: vec![] }));
    {
        let n = net::net();
        if n.cur.len() <= me { n.cur.resize_with(me + 1, Vec::new); }
        n.cur[me].push(vec![]);
    }
    let m0 = seams::sched().mono_ns;
    match active(|| t.parse(txt)) {
        Ok(html) => {
            r.out = Some(html.clone());
            let _ = active(move || drop(html));
        }
        Err(p) => r.panic = Some(p),
    }
    r.ms = ((seams::sched().mono_ns - m0) / 1_000_000) as u64;
    r.reqs = net::net().cur[me].pop().unwrap_or_default();
    if let Some(c) = HOOK.with(|h| h.borrow_mut().pop()) { r.hook = c.log; r.inner = c.inner; }
    r
}

fn wall_now() -> (i64, u32) {
    let w = seams::sched().wall_ns;
    (w.div_euclid(1_000_000_000) as i64, w.rem_euclid(1_000_000_000) as u32)
}
pub fn ns(w: (i64, u32)) -> i128 { w.0 as i128 * 1_000_000_000 + w.1 as i128 }

fn run_thread(id: usize, ops: Vec<Op>, heap: u64, reps: usize) -> Vec<Res> {
    let mut out = vec![];
    if heap != 0 {
        let mut r = Rng::new(heap ^ id as u64);
        let mut keep: Vec<Vec<u8>> = vec![];
        for _ in 0..r.range(1, 400) { keep.push(Vec::with_capacity(r.logu(8, 20_000) as usize)); }
        for (i, v) in keep.into_iter().enumerate() { if i % 3 == 0 { std::mem::forget(v) } }
    }
    let (len, mut count) = (ops.len(), 0);
    for i in 0..len * reps.max(1) {
        let op = ops[i % len].clone();
        {
            let s = seams::sched();
            s.cur_op[id] = i as i32;
            s.allocs[id] = 0;
            s.bytes[id] = 0;
        }
        seams::point(Point::OpStart);
        let wall = wall_now();
        let mut res = Res::default();
        match op {
            Op::New { slot: i, .. } if reps > 1 && slot(i).is_some() => {}
            Op::New { slot, cfg } => match active(|| build(&cfg)) {
                Ok(t) => put(slot, Some(t)),
                Err(p) => { put(slot, None); res.panic = Some(p) }
            },
            Op::Set { slot: i, mut set } => {
                if let (true, Setting::Uid(u)) = (reps > 1, &mut set) { *u = u.replace("⟦n⟧", &format!("{count:04}")); }
                let old = SLOTS.with(|s| s.borrow_mut().get_mut(i).and_then(|x| x.take()));
                match old.map(Rc::try_unwrap) {
                    Some(Ok(t)) => match active(move || apply(t, &set)) { Ok(t) => put(i, Some(t)), Err(p) => res.panic = Some(p) },
                    Some(Err(rc)) => { SLOTS.with(|s| s.borrow_mut()[i] = Some(rc)); res.skipped = true }
                    None => res.skipped = true,
                }
            }
            Op::Parse { slot, doc, policy, act } => {
                let mut txt = text(&doc);
                if reps > 1 { txt = txt.replace("⟦n⟧", &format!("{count:04}")); count += 1; }
                res = render(slot, &txt, policy, act)
            }
            Op::Serve { url, script } => { net::net().servers.insert(net::key(&url), script); }
            Op::Clock { wall } => { seams::sched().wall_ns = ns(wall); *net::net().faults.entry("clock step".into()).or_default() += 1; }
            Op::Wait { ms } => seams::advance(ms as i128 * 1_000_000),
            Op::Drop { slot } => put(slot, None),
        }
        res.thread = id;
        res.op = i;
        res.wall = wall;
        let s = seams::sched();
        res.steps = s.allocs[id];
        s.max_allocs = s.max_allocs.max(res.steps);
        res.live = s.live[id];
        out.push(res);
        seams::point(Point::OpEnd);
    }
    // instances die on their own thread, as part of the simulation
    let all = SLOTS.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let _ = active(move || drop(all));
    out
}

/// Runs in the child: never returns.
fn child(run: &Run, fd: i32) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut chaos, mut files) = (0, 0);
    let mut vars = vec![];
    for (k, v) in &run.env {
        // every file reads as something
        if k == "/" { files = v.parse().unwrap_or(1); continue; }
        if k == "*" { chaos = v.parse().unwrap_or(1); continue; }
        std::env::set_var(k, v);
        if let (Ok(k), Ok(v)) = (std::ffi::CString::new(k.as_str()), std::ffi::CString::new(v.as_str())) { vars.push((k, v)); }
    }
    seams::install_env(seams::EnvTable { vars, chaos, files, pid: 1000 + (run.hash_seed % 30_000) as i32 });
    // thread ids already used up by the time the system starts
    for _ in 0..run.heap % 5 { let _ = std::thread::spawn(|| {}).join(); }
    static T: SimTransport = SimTransport;
    unsafe { reqwest::sim::install(&T) };
    for s in &run.net { net::net().servers.insert(net::key(&s.url), s.script.clone()); }
    net::net().cur.resize_with(MAXT, Vec::new);
    let n = run.threads.len();
    assert!(n <= MAXT);
    let mode = match &run.sched {
        SchedSpec::Seq => Mode::Sequential,
        SchedSpec::Random { gap } => Mode::Random { gap: *gap },
        SchedSpec::Edges { gap } => Mode::Edges { gap: *gap },
        SchedSpec::Rare { rate } => Mode::Rare { rate: *rate },
        SchedSpec::Explicit(v) => Mode::Explicit(v.iter().map(|(thread, at, to)| ((*thread, *at), *to)).collect()),
    };
    let mut alive = [false; MAXT];
    for a in alive.iter_mut().take(n) { *a = true; }
    let mut s = Sched {
        n, mode, rng: Rng::new(run.seed ^ 0x5ced), alive, blocked: [None; MAXT], points: [0; MAXT], countdown: [1; MAXT], hold: 0, spin: 0, switches: Vec::with_capacity(4096), started: vec![],
        wall_ns: ns(run.wall), mono_ns: 1_000_000_000_000, tick_ns: run.tick, clock_reads: 0, sleeps: 0,
        hash_rng: Rng::new(run.hash_seed), random_draws: 0, allocs: [0; MAXT], bytes: [0; MAXT], live: [0; MAXT], alloc_budget: 30_000_000, byte_budget: 6 << 30,
        cur_op: [-1; MAXT], futex_waits: 0, pipe_fd: fd, total_points: 0, max_allocs: 0,
    };
    s.start_gaps();
    seams::install(s);
    seams::on();
    let m0 = seams::sched().mono_ns;
    let mut handles: Vec<Option<std::thread::JoinHandle<Vec<Res>>>> = vec![];
    for (id, ops) in run.threads.iter().enumerate() {
        let ops = ops.clone();
        let (heap, reps) = (run.heap, run.reps);
        let ready: &'static AtomicI32 = Box::leak(Box::new(AtomicI32::new(0)));
        handles.push(Some(
            std::thread::Builder::new().stack_size((8 << 20) + (heap % 7) as usize * 65536).spawn(move || {
                seams::thread_enter(id as i32, ready);
                let r = run_thread(id, ops, heap, reps);
                seams::thread_exit();
                r
            }).expect("spawn"),
        ));
        seams::wait_ready(ready);
    }
    let mut out = Outcome::default();
    let mut cur = if let SchedSpec::Explicit(v) = &run.sched { v.first().filter(|x| x.0 == -1).map(|x| x.2).unwrap_or(0) } else if n > 1 && run.sched != SchedSpec::Seq { seams::sched().rng.idx(n) as i32 } else { 0 };
    seams::sched().started.push(seams::Switch { thread: -1, at: 0, to: cur });
    let mut k = 0u64;
    loop {
        seams::run_from_main(cur);
        let s = seams::sched();
        // exactly one thread finished: join it, so that its destructors ran too
        let t = (0..n).find(|t| !s.alive[*t] && handles[*t].is_some()).expect("a finished thread");
        match handles[t].take().unwrap().join() { Ok(r) => out.res.extend(r), Err(_) => seams::die("CRASH", "harness thread panicked") }
        if handles.iter().all(|h| h.is_none()) { break; }
        k += 1;
        match s.choose(-1, k) {
            Some(t) => { cur = t; s.started.push(seams::Switch { thread: -1, at: k, to: t }); }
            None => seams::die("DEADLOCK", "every simulated thread is blocked"),
        }
    }
    seams::off();
    let s = seams::sched();
    out.res.sort_by_key(|r| (r.thread, r.op));
    out.stray = net::net().stray;
    out.switches = s.started.iter().chain(&s.switches).map(|x| (x.thread, x.at, x.to)).collect();
    out.points = s.total_points;
    out.sim_ms = ((s.mono_ns - m0) / 1_000_000) as u64;
    out.clock_reads = s.clock_reads;
    out.random_draws = s.random_draws;
    out.futex_waits = s.futex_waits;
    out.faults = std::mem::take(&mut net::net().faults);
    let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
    let ok = serde_json::to_vec(&out).ok().and_then(|v| f.write_all(&v).ok()).is_some();
    unsafe { libc::_exit(if ok { 0 } else { 3 }) }
}

/// Forks a child for `run` and collects its outcome.
pub fn execute(run: &Run) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 { harness_error("pipe"); }
        let pid = libc::fork();
        if pid < 0 { harness_error("fork"); }
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: 120, rlim_max: 121 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if null >= 0 { libc::dup2(null, 2); }
            child(run, fds[1]);
        }
        libc::close(fds[1]);
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let mut buf = Vec::new();
        let _ = f.read_to_end(&mut buf);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let died = |m: String| Outcome { died: Some(m), ..Default::default() };
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            return died(if sig == libc::SIGXCPU || sig == libc::SIGKILL { "HANG processor budget exhausted".into() } else { format!("CRASH signal {sig}") });
        }
        if buf.starts_with(b"HANG") || buf.starts_with(b"DEADLOCK") || buf.starts_with(b"CRASH") {
            let end = buf.iter().position(|b| *b == b'\n').unwrap_or(buf.len());
            let switches = buf[(end + 1).min(buf.len())..].chunks_exact(16).map(|c| (i32::from_le_bytes(c[8..12].try_into().unwrap()), u64::from_le_bytes(c[..8].try_into().unwrap()), i32::from_le_bytes(c[12..].try_into().unwrap()))).collect();
            return Outcome { switches, ..died(String::from_utf8_lossy(&buf[..end]).trim().to_string()) };
        }
        match serde_json::from_slice(&buf) {
            Ok(o) => o,
            Err(e) => harness_error(&format!("child result: {e} (status {st}, {} bytes)", buf.len())),
        }
    }
}
pub fn harness_error(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {m}");
    std::process::exit(2)
}
