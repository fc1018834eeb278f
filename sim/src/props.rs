//! Per property: how a run is generated from a seed, and how its history is judged.
use crate::docgen;
use crate::exec;
use crate::html;
use crate::net::{self, Expect};
use crate::rng::{fnv, splitmix, Rng};
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const ALL: [&str; 13] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

#[derive(Default)]
pub struct Env {
    refs: HashMap<u64, Res>,
    /// references of the run in hand that were rendered together, in one process
    soft: HashMap<u64, Res>,
    pub children: u64,
    /// (token, creation instant) of every parser seen by C06
    pub tokens: Vec<(String, (i64, u32))>,
}
#[derive(Default, Debug)]
pub struct Verdict {
    /// (class, message)
    pub viol: Option<(String, String)>,
    pub nontrivial: bool,
    /// signature of the execution: schedule + history
    pub sig: u64,
    /// signature of the schedule / fault sequence alone
    pub sched_sig: u64,
    pub out: Outcome,
    pub checks: u64,
}

impl Env {
    pub fn run(&mut self, r: &Run) -> Outcome { self.children += 1; exec::execute(r) }
    /// What a pristine process renders: a fresh parser with these settings, this text, this network.
    pub fn reference(&mut self, cfg: &Cfg, txt: &str, policy: Policy, netw: &[Server]) -> Res {
        let netw = relevant(cfg, txt, netw);
        let k = ref_key(cfg, txt, policy, &netw);
        if let Some(r) = self.soft.get(&k).or_else(|| self.refs.get(&k)) { return r.clone(); }
        let run = Run { reps: 1,
            prop: "ref".into(), seed: 0, hash_seed: 0xfeed, wall: (1_600_000_000, 123_456_789), tick: 1, env: vec![], heap: 0, sched: SchedSpec::Seq, net: netw,
            threads: vec![vec![Op::New { slot: 0, cfg: cfg.clone() }, Op::Parse { slot: 0, doc: vec![txt.to_string()], policy, act: None }]],
        };
        let o = self.run(&run);
        let mut r = o.res.get(1).cloned().unwrap_or_default();
        if let Some(d) = o.died { r = Res { panic: Some(format!("reference: {d}")), ..Default::default() } }
        if self.refs.len() > 4000 { self.refs.clear(); }
        self.refs.insert(k, r.clone());
        r
    }
}
fn relevant(cfg: &Cfg, txt: &str, netw: &[Server]) -> Vec<Server> {
    if cfg.sizes && cfg.images { netw.iter().filter(|s| s.url.contains('%') || txt.contains(tag_of(&s.url))).cloned().collect() } else { vec![] }
}
fn ref_key(cfg: &Cfg, txt: &str, policy: Policy, netw: &[Server]) -> u64 { fnv(serde_json::to_string(&(cfg, txt, policy, netw)).unwrap().as_bytes()) }
impl Env {
    /// Renders what the threads of `run` render one after the other, each with a parser of its own,
    /// in a single process: much cheaper than a process each, and good enough until it differs.
    fn together(&mut self, run: &Run) {
        self.soft.clear();
        let mut items: Vec<(Cfg, String, Policy, u64)> = vec![];
        for ops in run.threads.iter().filter(|o| !o.is_empty()) {
            if ops.iter().any(|o| matches!(o, Op::Serve { .. })) { return; }
            let (eff, netw) = (effective(ops), net_at(run, &ops[..1]));
            for (i, op) in ops.iter().enumerate() {
                let (Op::Parse { slot, doc, policy, .. }, Some(n)) = (op, netw.first()) else { continue };
                let Some(c) = eff[i].get(slot) else { continue };
                let c = Cfg { uid: Some(c.uid.clone().unwrap_or_else(|| html::PLACEHOLDER.into())), ..c.clone() };
                let txt = text(doc);
                let k = ref_key(&c, &txt, *policy, &relevant(&c, &txt, n));
                if !items.iter().any(|x| x.3 == k) { items.push((c, txt, *policy, k)); }
            }
        }
        let mut r = Rng::new(run.seed ^ 0x70e7);
        for i in (1..items.len()).rev() { let j = r.idx(i + 1); items.swap(i, j); }
        let mut ops = vec![];
        for (c, t, p, _) in &items { ops.push(Op::New { slot: 0, cfg: c.clone() }); ops.push(Op::Parse { slot: 0, doc: vec![t.clone()], policy: *p, act: None }); }
        let o = self.run(&Run { reps: 1, prop: "ref".into(), seed: 0, hash_seed: 0xfeed, wall: (1_600_000_000, 123_456_789), tick: 1, env: vec![], heap: 0, sched: SchedSpec::Seq, net: run.net.clone(), threads: vec![ops] });
        if o.died.is_some() { return; }
        for (i, x) in items.iter().enumerate() { if let Some(r) = o.at(0, 2 * i + 1) { self.soft.insert(x.3, r.clone()); } }
    }
}
/// The part of a generated image URL that identifies its server.
fn tag_of(url: &str) -> &str { url.rsplit('/').next().unwrap_or(url).split(['#', '?']).next().unwrap_or("") }

// ---------------------------------------------------------------- generation helpers

const UIDS: [&str; 9] = ["u1", "abc", "42", "f00d", "tok-9", "v1.2", "a+b", "$1", "p(1)"];
const RELS: [&str; 3] = ["nofollow", "noopener noreferrer", "me"];
fn policy(r: &mut Rng) -> Policy { *r.pick(&[Policy::Plain, Policy::Rel, Policy::NoImg, Policy::NoLinks, Policy::OnlyText, Policy::Classes, Policy::AbsoluteOnly]) }
fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg { uid: Some(r.pick(&UIDS).to_string()), ..Default::default() };
    c.xhtml = r.chance(1, 3);
    c.restricted = r.chance(1, 4);
    c.lite = r.chance(1, 10);
    c.images = !r.chance(1, 10);
    c.blocks = !r.chance(1, 12);
    c.raw = r.chance(1, 5);
    if r.chance(1, 4) { c.rel = Some(r.pick(&RELS).to_string()); }
    c.san = match r.below(8) { 0 => San::Default, 1 => San::Hook, _ => San::Off };
    c
}
/// settings for the image properties
fn img_cfg(r: &mut Rng) -> Cfg {
    let mut c = cfg(r);
    c.images = true;
    c.blocks = true;
    c.sizes = true;
    c.lite = r.chance(1, 12);
    c
}
fn setting(r: &mut Rng) -> Setting {
    match r.below(11) {
        0 | 1 => Setting::Uid(r.pick(&UIDS).to_string()),
        2 => Setting::Xhtml(r.chance(1, 2)),
        3 => Setting::Restricted(r.chance(1, 2)),
        4 => Setting::Lite(r.chance(1, 2)),
        5 => Setting::Images(r.chance(1, 2)),
        6 => Setting::Blocks(r.chance(2, 3)),
        7 => Setting::Raw(r.chance(1, 2)),
        8 => Setting::Sizes(r.chance(1, 2)),
        9 => Setting::Rel(if r.chance(1, 2) { Some(r.pick(&RELS).to_string()) } else { None }),
        _ => Setting::San(*r.pick(&[San::Off, San::Default, San::Hook])),
    }
}
pub fn fold(c: &mut Cfg, s: &Setting) {
    match s.clone() {
        Setting::Uid(u) => c.uid = Some(u),
        Setting::Xhtml(b) => c.xhtml = b,
        Setting::Restricted(b) => c.restricted = b,
        Setting::Lite(b) => c.lite = b,
        Setting::Images(b) => c.images = b,
        Setting::Blocks(b) => c.blocks = b,
        Setting::Raw(b) => c.raw = b,
        Setting::Sizes(b) => c.sizes = b,
        Setting::Rel(x) => c.rel = x,
        Setting::San(x) => c.san = x,
    }
}
fn base(prop: &str, seed: u64, r: &mut Rng) -> Run {
    Run { prop: prop.into(), seed, hash_seed: r.next(), wall: (r.range(1_000_000_000, 2_000_000_000), r.below(1_000_000_000) as u32), tick: r.range(0, 1000), env: vec![], heap: 0, sched: SchedSpec::Seq, net: vec![], reps: 1, threads: vec![] }
}
fn random_sched(r: &mut Rng) -> SchedSpec {
    match r.below(5) {
        0 | 1 => SchedSpec::Random { gap: r.logu(20, 60_000) },
        2 | 3 => SchedSpec::Edges { gap: r.logu(8, 20_000) },
        _ => SchedSpec::Rare { rate: r.logu(1, 32) },
    }
}
/// A URL for one more image. Often it resembles one already in use, differing in one part only.
fn img_url(r: &mut Rng, net: &[Server]) -> String {
    let k = net.len();
    let taken = |u: &str| net.iter().any(|s| net::key(&s.url) == net::key(u));
    if k > 0 && r.chance(1, 3) {
        let u = r.pick(net).url.clone();
        let bare = u.split(['?', '#']).next().unwrap().to_string();
        let tail = u[bare.len()..].to_string();
        let v = match r.below(9) {
            0 => format!("{bare}?v={k}"),
            1 => format!("{bare}?a=1&b={k}"),
            2 => bare,
            3 => u.replace("/pic", "/PIC"),
            4 => u.replace("/pic", "/other/pic"),
            5 => if let Some(x) = u.strip_prefix("http://") { format!("https://{x}") } else { u.replacen("https://", "http://", 1) },
            6 => u.replacen("example", "example.org", 1),
            7 => u.replacen(".example/", ".example:81/", 1),
            _ => format!("{bare}x{tail}"),
        };
        if !taken(&v) { return v; }
    }
    let base = r.pick(&docgen::HOSTS).to_string();
    let q = match r.below(8) { 0 => "?v=1", 1 => "?a=1&b=2", 2 => "?q=x'y", 3 => "#frag", _ => "" };
    let name = match r.below(12) { 0 => "pic,;=~", 1 => "picé", 2 => "pic%20x", 3 => "a/b/pic", _ => "pic" };
    format!("{base}{name}{k}{}{q}", r.pick(&[".png", ".jpg", "", ".gif"]))
}
fn parse(slot: usize, doc: Vec<String>) -> Op { Op::Parse { slot, doc, policy: Policy::Plain, act: None } }
/// A document with images on it; servers are added to `net`.
fn img_doc(r: &mut Rng, net: &mut Vec<Server>, n: i64, server: &mut dyn FnMut(&mut Rng) -> Script) -> Vec<String> {
    let mut doc = vec![];
    for _ in 0..n {
        if r.chance(1, n.max(3) as u64) { doc.push(docgen::block(r)); }
        let u = img_url(r, net);
        net.push(Server { url: u.clone(), script: server(r) });
        doc.push(docgen::image(r, &u));
        if r.chance(1, 10) { doc.push(docgen::image(r, &u)); }
    }
    if r.chance(1, 3) { doc.push(docgen::block(r)); }
    // extended blocks would swallow what follows: harmless, but fewer images would render
    for b in &mut doc { if b.starts_with("bc(ruby)..") || b.starts_with("pre..") { *b = b.replacen("..", ".", 1); } }
    doc
}
/// How many images a page gets: a few, and once in a while more than anyone counts on.
fn images(r: &mut Rng, few: i64) -> i64 { if r.chance(1, 50) { r.logu(8, 48) as i64 } else { r.range(1, few) } }
/// Blocks that show state carried over between documents, mixed with ordinary ones.
fn state_doc(r: &mut Rng) -> Vec<String> {
    let mut d = match r.below(6) { 0 | 1 => docgen::rich(r), 2 => docgen::corpus(r), _ => vec![] };
    match r.below(120) { 0 => d.push(docgen::bulk(r, 20_000)), 1 | 2 | 3 => d.extend(docgen::many(r)), 4 | 5 => { let k = r.below(docgen::THEMES); d.extend(docgen::theme(r, k)); } _ => {} }
    let n = if d.is_empty() { r.range(1, 4) } else { r.range(0, 2) };
    for _ in 0..n { let b = if r.chance(1, 2) { docgen::telltale(r) } else { docgen::block(r) }; let at = r.idx(d.len() + 1); d.insert(at, b); }
    d
}

pub fn run_seed(master: u64, prop: &str, index: u64) -> u64 { splitmix(splitmix(master ^ fnv(prop.as_bytes())) ^ index.wrapping_mul(0x2545_F491_4F6C_DD1D)) }

pub fn gen(prop: &str, seed: u64) -> Run {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut run = base(prop, seed, r);
    match prop {
        "C01" => {
            let c = img_cfg(r);
            let off = Cfg { sizes: false, ..c.clone() };
            let n = images(r, 4);
            let rate = *r.pick(&[30u64, 60, 100]);
            let doc = img_doc(r, &mut run.net, n, &mut |r| if r.chance(rate, 100) { net::faulty(r) } else { net::healthy(r) });
            let mut ops = vec![Op::New { slot: 0, cfg: off }, Op::New { slot: 1, cfg: c }];
            let order: &[usize] = *r.pick(&[&[0usize, 1][..], &[1, 0], &[1, 1, 0]]);
            for s in order { ops.push(parse(*s, doc.clone())); }
            run.threads.push(ops);
        }
        "C02" => {
            let threads = if r.chance(1, 3) { 2 } else { 1 };
            for _ in 0..threads {
                let c = img_cfg(r);
                let n = images(r, 4);
                let doc = img_doc(r, &mut run.net, n, &mut |r| match r.below(8) {
                    0 => net::faulty(r),
                    1 | 2 => {
                        // the connection breaks once the dimensions are known
                        let mut s = net::healthy(r);
                        if r.chance(1, 2) { s.body.truncate(s.need); }
                        s.tail = *r.pick(&[Tail::Reset, Tail::Stall, Tail::ShortBody, Tail::Decode, Tail::Eof, Tail::GarbageForever]);
                        s
                    }
                    3 => { let mut s = net::healthy(r); s.kind = "jpeg-big".into(); let (b, t, n) = net::image("jpeg-big", r); s.body = b; s.truth = Some(t); s.need = n; s }
                    _ => net::healthy(r),
                });
                run.threads.push(vec![Op::New { slot: 0, cfg: c }, parse(0, doc)]);
            }
            if threads > 1 { run.sched = random_sched(r); }
        }
        "C03" => {
            let mut c = cfg(r);
            c.blocks = true;
            c.san = San::Off;
            c.sizes = r.chance(4, 5);
            c.images = r.chance(5, 6);
            let n = images(r, 3);
            let mut doc = img_doc(r, &mut run.net, n, &mut |r| match r.below(5) { 0 => net::faulty(r), 1 => net::slow(r), _ => net::healthy(r) });
            for s in &mut run.net { if r.chance(1, 5) { s.script.body = vec![b'z'; 5000]; s.script.truth = None; s.script.kind = "page".into(); s.script.tail = Tail::GarbageForever; } }
            for _ in 0..r.range(0, 3) {
                let k = run.net.len();
                let (u, served) = match r.below(12) {
                    0 => (format!("/local/pic{k}.png"), false),
                    1 => (format!("//proto.example/pic{k}.png"), false),
                    2 => (format!("ftp://files.example/pic{k}.png"), false),
                    3 => (format!("data:image/png;base64,pic{k}"), false),
                    4 => (format!("javascript:alert('pic{k}')"), false),
                    5 => (format!("file:///etc/pic{k}.png"), false),
                    6 => (format!("HTTP://Upper.Example:80/a/../pic{k}.png"), true),
                    7 => (format!("mailto:pic{k}@x.example"), false),
                    8 => (format!("pic{k}.png"), false),
                    9 => (format!("https://b.example/pic{k}.png?x=1&y=\"2\"&z='3'"), true),
                    10 => ("home".into(), false),
                    _ => (format!("http://user:pw@h.example/pic{k}.png"), true),
                };
                if served { run.net.push(Server { url: url::Url::parse(&u).unwrap().to_string(), script: net::healthy(r) }); }
                let i = r.idx(doc.len() + 1);
                doc.insert(i, if r.chance(1, 4) { inert(r, &u) } else { format!("!{u}!") });
            }
            let mut ops = vec![Op::New { slot: 0, cfg: c }, parse(0, doc.clone())];
            if r.chance(1, 3) { ops.push(Op::Wait { ms: 1000 }); ops.push(parse(0, doc)); }
            run.threads.push(ops);
        }
        "C04" => {
            let mut c = img_cfg(r);
            c.san = San::Off;
            let n = images(r, 3);
            let doc = img_doc(r, &mut run.net, n, &mut |r| if r.chance(1, 5) { net::healthy(r) } else { net::slow(r) });
            let mut ops = vec![Op::New { slot: 0, cfg: c }, parse(0, doc.clone())];
            // the faults stop: the next render must show the sizes
            for s in &run.net { let mut h = net::healthy(r); h.hiccups.clear(); ops.push(Op::Serve { url: s.url.clone(), script: h }); }
            ops.push(parse(0, doc));
            run.threads.push(ops);
        }
        "C05" => {
            run.wall = odd_clock(r);
            run.tick = *r.pick(&[0i64, 1, -1, 1_000_000_000, -3_600_000_000_000]);
            let mut ops = vec![];
            let n = r.range(1, 2) as usize;
            for slot in 0..n {
                if slot > 0 { ops.push(Op::Clock { wall: odd_clock(r) }); }
                let mut c = cfg(r);
                c.uid = None;
                c.blocks = true;
                ops.push(Op::New { slot, cfg: c });
            }
            for _ in 0..r.range(2, 4) {
                let slot = r.idx(n);
                let mut d = state_doc(r);
                d.insert(0, "probe[1] word".into());
                ops.push(parse(slot, d));
                if r.chance(1, 2) { ops.push(Op::Clock { wall: odd_clock(r) }); }
                if r.chance(1, 4) { ops.push(Op::Wait { ms: r.logu(1, 1 << 40) }); }
            }
            run.threads.push(ops);
        }
        "C06" if r.chance(1, 6) => {
            // many parsers at as many instants
            run.tick = 0;
            let mut ops = vec![];
            let t0 = exec::ns(run.wall);
            let span = r.logu(1_000, 1 << 50) as u64;
            let mut seen = BTreeSet::new();
            for _ in 0..900 {
                let t = t0 + r.below(span) as i128;
                if !seen.insert(t) { continue; }
                ops.push(Op::Clock { wall: from_ns(t) });
                ops.push(Op::New { slot: 0, cfg: Cfg::default() });
                ops.push(parse(0, vec!["x[1]".into()]));
            }
            run.threads.push(ops);
        }
        "C06" => {
            run.tick = 0;
            let mut ops = vec![];
            let mut times: Vec<(i64, u32)> = vec![if r.chance(1, 2) { odd_clock(r) } else { run.wall }];
            for _ in 0..r.range(1, 4) {
                let t = *r.pick(&times);
                let n = neighbour(r, t);
                if !times.contains(&n) { times.push(n); }
            }
            run.wall = times[0];
            for (slot, t) in times.iter().enumerate() {
                ops.push(Op::Clock { wall: *t });
                ops.push(Op::New { slot, cfg: Cfg { xhtml: r.chance(1, 3), restricted: r.chance(1, 4), ..Default::default() } });
                ops.push(parse(slot, vec!["x[1] y[2] z[#n1] w[#n2]".into(), "fn1. one".into(), "note#n1. first".into(), "notelist.".into()]));
            }
            run.threads.push(ops);
        }
        "C07" | "C08" => {
            let threads = if prop == "C08" && r.chance(1, 3) { 2 } else { 1 };
            for _ in 0..threads {
                let ops = history(r, &mut run.net, prop == "C08");
                run.threads.push(ops);
            }
            if threads > 1 { run.sched = random_sched(r); }
        }
        "C09" if r.chance(1, 2) => {
            // every thread dwells on one construct, and meets the others in the code for it
            let n = if r.chance(1, 3) { r.range(4, 6) } else { r.range(2, 3) } as usize;
            let kin: [&[u64]; 6] = [&[0, 1], &[4, 5], &[3, 8, 13], &[6, 9], &[7, 10], &[2, 11, 12]];
            let kinds: Vec<u64> = if r.chance(1, 2) { r.pick(&kin).to_vec() } else { (0..r.range(1, 3)).map(|_| r.below(docgen::THEMES)).collect() };
            for t in 0..n {
                let c = Cfg { sizes: false, ..cfg(r) };
                let mut ops = vec![Op::New { slot: 0, cfg: c }];
                let mixed = r.chance(1, 3);
                for _ in 0..r.range(1, 4) {
                    let d = if r.chance(1, 12) { docgen::many(r) } else if mixed { kinds.iter().flat_map(|k| docgen::theme(r, *k)).collect() } else { docgen::theme(r, kinds[t % kinds.len()]) };
                    ops.push(Op::Parse { slot: 0, doc: d, policy: policy(r), act: None });
                }
                run.threads.push(ops);
            }
            run.sched = match r.below(5) { 0 => SchedSpec::Random { gap: r.logu(8, 4_000) }, 1 | 2 => SchedSpec::Edges { gap: r.logu(8, 4_000) }, _ => SchedSpec::Rare { rate: r.logu(1, 32) } };
        }
        "C09" => {
            let n = if r.chance(1, 8) { 6 } else { r.range(2, 4) };
            let shared = state_doc(r);
            let same = r.chance(1, 3);
            for _ in 0..n {
                let mut ops = vec![];
                let mut c = cfg(r);
                c.sizes = r.chance(1, 3);
                ops.push(Op::New { slot: 0, cfg: c.clone() });
                for _ in 0..r.range(1, 3) {
                    let mut d = if same || r.chance(1, 3) { shared.clone() } else { state_doc(r) };
                    if r.chance(1, 3) { d = docgen::edited(r, &d); }
                    if c.sizes && r.chance(2, 3) { d.extend(img_doc(r, &mut run.net, 1, &mut |r| if r.chance(1, 4) { net::faulty(r) } else { net::healthy(r) })); }
                    ops.push(Op::Parse { slot: 0, doc: d, policy: policy(r), act: None });
                    if r.chance(1, 5) { let s = setting(r); ops.push(Op::Set { slot: 0, set: s }); }
                }
                run.threads.push(ops);
            }
            run.sched = random_sched(r);
        }
        "C10" => {
            run.wall = odd_clock(r);
            run.heap = r.next() | 1;
            run.tick = r.range(-1000, 1000);
            let locale = *r.pick(&["tr_TR.UTF-8", "de_DE.UTF-8", "fr_FR.UTF-8", "C", "en_US.UTF-8", "ja_JP.eucJP", "ru_RU.KOI8-R", "POSIX", "az", "ar_EG"]);
            for (k, v) in [("LANG", locale), ("LC_ALL", locale), ("LANGUAGE", locale), ("TZ", "Asia/Kathmandu"), ("HTTP_PROXY", "http://proxy.example:1"), ("RUST_BACKTRACE", "1"), ("HOME", "/nonexistent")] { if r.chance(1, 3) { run.env.push((k.into(), v.into())); } }
            if r.chance(2, 3) { run.env.push(("*".into(), (r.next() | 1).to_string())); }
            if r.chance(2, 3) { run.env.push(("/".into(), (r.next() | 1).to_string())); }
            let mut c = cfg(r);
            c.sizes = r.chance(1, 3);
            if r.chance(1, 2) { c.san = *r.pick(&[San::Default, San::Hook]); }
            let mut d = docgen::doc(r, 0, 5);
            for _ in 0..r.range(1, 3) { d.extend(docgen::rich(r)); }
            if r.chance(1, 2) { d.extend(docgen::corpus(r)); }
            if r.chance(1, 3) { d.extend(docgen::many(r)); }
            if r.chance(1, 60) { d.push(docgen::bulk(r, 130_000)); }
            for _ in 0..2 { d.push(docgen::telltale(r)); }
            if c.sizes { d.extend(img_doc(r, &mut run.net, 2, &mut |r| net::healthy(r))); }
            let p = policy(r);
            let ops = vec![Op::New { slot: 0, cfg: c }, Op::Parse { slot: 0, doc: d, policy: p, act: None }];
            run.threads.push(ops.clone());
            if r.chance(1, 4) { run.threads.push(ops); run.sched = random_sched(r); }
        }
        "C11" => {
            let mut c = cfg(r);
            if r.chance(1, 2) { c.uid = None; c.blocks = true; }
            let mut ops = vec![Op::New { slot: 0, cfg: c }, parse(0, vec!["probe[1] word".into()])];
            for _ in 0..r.range(1, 2) {
                let mut d = docgen::doc(r, 1, 4);
                let k = r.range(1, 4);
                for _ in 0..k { forge(r, &mut d, None); }
                // elsewhere on the page: near misses
                if r.chance(1, 2) { let k = r.below(160); for _ in 0..r.range(1, 2) { forge(r, &mut d, Some(k)); } if r.chance(1, 2) { d.retain(|b| !b.contains(TOK) || !b.contains(&format!("textileRef:{TOK}:"))); } }
                ops.push(parse(0, d));
            }
            run.threads.push(ops);
        }
        "C12" => {
            let threads = if r.chance(1, 5) { 2 } else { 1 };
            for _ in 0..threads {
            let mut ops = vec![];
            for slot in 0..2 {
                let mut c = cfg(r);
                c.san = if slot == 0 { San::Hook } else { *r.pick(&[San::Hook, San::Off, San::Default]) };
                c.sizes = r.chance(1, 4);
                ops.push(Op::New { slot, cfg: c });
            }
            for _ in 0..r.range(1, 4) {
                let slot = r.idx(2);
                let before = ops.iter().rev().find_map(|o| match o { Op::Parse { doc, .. } => Some(doc.clone()), _ => None });
                let mut d = match before { Some(d) if text(&d).len() < 20_000 && r.chance(1, 4) => if r.chance(2, 3) { docgen::edited(r, &d) } else { d }, _ => state_doc(r) };
                d.push("\"l\":http://example.com/ !i.png! \"r\":/rel *(cls)x*".into());
                if r.chance(1, 5) { d = vec![r.pick(&["", " ", "\n\n", "\t \n"]).to_string()]; }
                if r.chance(1, 20) { let at = r.idx(d.len() + 1); d.insert(at, docgen::bulk(r, 130_000)); }
                if r.chance(1, 4) { d.extend(img_doc(r, &mut run.net, 1, &mut |r| net::healthy(r))); }
                let act = if r.chance(1, 3) { Some(HookAct::Render { slot: r.idx(2), doc: state_doc(r) }) } else { None };
                ops.push(Op::Parse { slot, doc: d, policy: policy(r), act });
                if r.chance(1, 6) { ops.push(Op::Set { slot, set: Setting::San(*r.pick(&[San::Off, San::Hook, San::Default])) }); }
                else if r.chance(1, 8) { ops.push(Op::Set { slot, set: setting(r) }); }
            }
            run.threads.push(ops);
            }
            if threads > 1 { run.sched = random_sched(r); }
        }
        "C13" => {
            let mut c = cfg(r);
            c.sizes = r.chance(1, 2);
            let imgs = if c.sizes && c.images { img_doc(r, &mut run.net, 1, &mut |r| if r.chance(1, 2) { net::faulty(r) } else { net::healthy(r) }) } else { vec![] };
            let templ: Vec<Vec<String>> = (0..2).map(|_| { let mut d = state_doc(r); while text(&d).len() > 4000 { d.pop(); } d.push(docgen::block(r)); d }).collect();
            let resets = r.chance(1, 4);
            // either one parser for the whole history, or a new one for every few renders
            let cycle = if r.chance(1, 3) { *r.pick(&[1, 2, 3, 5, 6]) } else { 0 };
            let aborts = r.chance(1, 4);
            let mut ops = vec![];
            let mut bad = Rng::new(run.seed);
            for i in 0..PERIOD {
                if i == 0 || (cycle > 0 && i % cycle == 0) { ops.push(Op::New { slot: 0, cfg: c.clone() }); }
                let mut d: Vec<String> = templ[i % 2].iter().map(|b| uniq(b)).collect();
                d.push("unique text number ⟦n⟧ of this page[1⟦n⟧] \"l\":http://u⟦n⟧.example/ note[#x⟦n⟧]".into());
                d.push("note#x⟦n⟧. text ⟦n⟧".into());
                d.extend(imgs.clone());
                if c.sizes && i % 3 == 1 { d.push("!http://gone⟦n⟧.example/x.png!".into()); }
                let mut act = None;
                if aborts && i % 5 == 3 { if c.san == San::Hook { act = Some(HookAct::Panic) } else if i % 2 == 0 { d.push(docgen::natural_panic(&mut bad)); } }
                ops.push(Op::Parse { slot: 0, doc: d, policy: Policy::Plain, act });
                if resets { ops.push(Op::Set { slot: 0, set: Setting::Uid("t⟦n⟧".into()) }); }
                if cycle > 0 && i % cycle == cycle - 1 { ops.push(Op::Drop { slot: 0 }); }
            }
            run.reps = 4;
            run.threads.push(ops);
        }
        p => exec::harness_error(&format!("unknown property {p}")),
    }
    run
}
/// Number of renders after which a history whose memory is judged repeats itself, names aside.
const PERIOD: usize = 30;
/// The same block with other names in it each time, of the same length.
fn uniq(b: &str) -> String {
    let mut t = b.to_string();
    for w in ["example", "alpha", "river", "stone", "myref", "home", "docs", "cls", "zeta", "color:red", "title", "engine", "second", "text"] {
        if w.contains(':') { t = t.replace(w, "color:#1⟦n⟧0"); } else { t = t.replace(w, &format!("{}⟦n⟧", &w[..2])); }
    }
    t
}
/// Image markup where no image is meant: no request may come of it.
fn inert(r: &mut Rng, u: &str) -> String {
    match r.below(7) {
        0 => format!("@!{u}!@"),
        1 => format!("bc. !{u}!"),
        2 => format!("<notextile>!{u}!</notextile>"),
        3 => format!("==!{u}!=="),
        4 => format!("pre. !{u}!"),
        5 => format!("notextile. !{u}!"),
        _ => format!("###. !{u}!"),
    }
}
/// A run with exactly two parsers, created at these instants.
pub fn pair_of_instants(a: (i64, u32), b: (i64, u32)) -> Run {
    let mut ops = vec![];
    for (slot, t) in [a, b].into_iter().enumerate() {
        ops.push(Op::Clock { wall: t });
        ops.push(Op::New { slot, cfg: Cfg::default() });
        ops.push(parse(slot, vec!["x[1]".into()]));
    }
    Run { prop: "C06".into(), seed: 1, hash_seed: 1, wall: a, tick: 0, env: vec![], heap: 0, sched: SchedSpec::Seq, net: vec![], reps: 1, threads: vec![ops] }
}
fn odd_clock(r: &mut Rng) -> (i64, u32) {
    let ns = match r.below(5) { 0 => 0, 1 => 999_999_999, 2 => 1, _ => r.below(1_000_000_000) as u32 };
    let s = match r.below(14) {
        0 => 0,
        1 => -1,
        2 => -r.range(1, 4_000_000_000),
        3 => i32::MAX as i64,
        4 => i32::MAX as i64 + 1,
        5 => u32::MAX as i64 + r.range(-1, 1),
        6 => 9_223_372_036 + r.range(-1, 1), // 2^63 ns
        7 => 18_446_744_073 + r.range(-1, 1), // 2^64 ns
        8 => 253_402_300_800, // year 10000
        9 => r.range(0, 1) * 1 << 55,
        10 => -(1i64 << 40),
        _ => r.range(0, 4_000_000_000),
    };
    (s, ns)
}
fn from_ns(n: i128) -> (i64, u32) { (n.div_euclid(1_000_000_000) as i64, n.rem_euclid(1_000_000_000) as u32) }
fn neighbour(r: &mut Rng, t: (i64, u32)) -> (i64, u32) {
    let n = exec::ns(t);
    match r.below(16) {
        0 | 1 => from_ns(n + 1),
        2 => from_ns(n + 1000),
        3 => from_ns(n + 1_000_000),
        4 => from_ns(n + 1_000_000_000),
        5 => from_ns(n + (1i128 << 32)),
        6 => from_ns(n + (1i128 << 64)),
        7 => from_ns(-n),
        8 => (t.0.wrapping_add(1 << 32), t.1),
        9 => (t.1 as i64, (t.0.rem_euclid(1_000_000_000)) as u32),
        10 => from_ns(n + 86_400_000_000_000),
        11 => from_ns(n + 3_600_000_000_000),
        12 => (t.0, t.1 ^ 1),
        13 => from_ns(n + 100),
        14 => (t.0 + r.range(1, 1000), t.1.saturating_sub(r.below(1000) as u32)),
        _ => from_ns(n - 1),
    }
}
const FILLER: &str = "filler";
fn history(r: &mut Rng, net: &mut Vec<Server>, aborts: bool) -> Vec<Op> {
    let mut ops = vec![];
    let slots = r.range(1, 2) as usize;
    let first = net.len();
    for _ in 0..2 {
        let u = img_url(r, net);
        net.push(Server { url: u, script: net::healthy(r) });
    }
    for slot in 0..slots {
        let mut c = cfg(r);
        c.sizes = r.chance(1, 2);
        if r.chance(1, 4) { c.uid = None; }
        if aborts && r.chance(1, 2) { c.san = San::Hook; }
        ops.push(Op::New { slot, cfg: c });
    }
    let mut docs: Vec<Vec<String>> = vec![];
    // now and then a long life before the renders that are judged
    if r.chance(1, 12) {
        let slot = r.idx(slots);
        let mut t = state_doc(r);
        while text(&t).len() > 1200 { t.pop(); }
        for i in 0..r.logu(20, 320) as usize {
            ops.push(parse(slot, vec![FILLER.into(), t.iter().map(|b| uniq(b).replace("⟦n⟧", &format!("{i:04}"))).collect::<Vec<_>>().join("\n\n"), format!("x[{}] \"l\":http://f{i}.example/ y[#z{i}]", i + 1)]));
        }
    }
    // or a long series of aborted renders
    if aborts && r.chance(1, 6) {
        let slot = r.idx(slots);
        let hooked = r.chance(1, 2);
        if hooked { ops.push(Op::Set { slot, set: Setting::San(San::Hook) }); }
        for _ in 0..r.logu(3, 40) {
            let mut d = state_doc(r);
            while text(&d).len() > 4000 { d.pop(); }
            if !hooked { let at = r.idx(d.len() + 1); d.insert(at, docgen::natural_panic(r)); }
            ops.push(Op::Parse { slot, doc: d, policy: policy(r), act: if hooked { Some(HookAct::Panic) } else { None } });
        }
    }
    let n = r.range(2, 6);
    let mut abort_at = if aborts { r.range(0, n - 2) } else { -1 };
    for i in 0..n {
        let slot = r.idx(slots);
        // the same text again, perhaps with another parser or other settings
        let mut d = if !docs.is_empty() && r.chance(1, 3) { let d = r.pick(&docs).clone(); if r.chance(1, 2) { docgen::edited(r, &d) } else { d } } else { state_doc(r) };
        if r.chance(1, 3) { let u = net[first + r.idx(2)].url.clone(); d.push(docgen::image(r, &u)); }
        docs.push(d.clone());
        let mut act = None;
        if i == abort_at {
            if r.chance(1, 4) { abort_at = i + 1; }
            match r.below(6) {
                0 | 1 => {
                    // the transport dies in the middle of a document
                    let k = net.len();
                    let mut s = net::healthy(r);
                    if r.chance(1, 2) { s.connect = Connect::Panic } else { s.body.truncate(r.idx(s.need)); s.tail = Tail::Panic }
                    let u = format!("http://dead.example/pic{k}.png");
                    net.push(Server { url: u.clone(), script: s });
                    ops.push(Op::Set { slot, set: Setting::Sizes(true) });
                    ops.push(Op::Set { slot, set: Setting::Images(true) });
                    let b = docgen::image(r, &u);
                    let at = r.idx(d.len() + 1);
                    d.insert(at, b);
                }
                2 => { ops.push(Op::Set { slot, set: Setting::San(San::Hook) }); act = Some(HookAct::Panic); }
                3 => { ops.push(Op::Set { slot, set: Setting::San(San::Hook) }); act = Some(HookAct::RenderThenPanic { slot: r.idx(slots), doc: state_doc(r) }); }
                _ => { let at = r.idx(d.len() + 1); d.insert(at, docgen::natural_panic(r)); }
            }
        }
        let again = if r.chance(1, 2) { docgen::edited(r, &d) } else { d.clone() };
        ops.push(Op::Parse { slot, doc: d, policy: policy(r), act });
        if r.chance(1, 3) { ops.push(Op::Set { slot, set: setting(r) }); }
        if r.chance(1, 4) {
            // the same text at once, under one other setting, or with the other parser
            if r.chance(1, 2) { ops.push(Op::Set { slot, set: Setting::Restricted(r.chance(1, 2)) }); } else if r.chance(1, 2) { ops.push(Op::Set { slot, set: setting(r) }); }
            ops.push(Op::Parse { slot: if r.chance(2, 3) { slot } else { r.idx(slots) }, doc: again, policy: policy(r), act: None });
        }
        if r.chance(1, 4) {
            let u = net[first + r.idx(2)].url.clone();
            ops.push(Op::Serve { url: u, script: if r.chance(1, 4) { net::faulty(r) } else { net::healthy(r) } });
        }
        if r.chance(1, 8) { ops.push(Op::Clock { wall: odd_clock(r) }); }
        if r.chance(1, 8) { let mut c = cfg(r); c.sizes = r.chance(1, 2); if r.chance(1, 2) { ops.push(Op::Drop { slot }); } ops.push(Op::New { slot, cfg: c }); }
    }
    ops
}
pub const TOK: &str = "{TOKEN}";
/// stands for what the token would match, were it read as an expression
pub const LOOK: &str = "{T0KEN}";
fn lookalike(tok: &str) -> String {
    let l = tok.replace('.', "x").replace(['+', '(', ')', '$'], "");
    if l == tok { format!("{tok}0") } else { l }
}
/// A marker that is not quite one: it must not become one on the way through the parser.
fn hurt(kind: u64, whole: &str) -> String {
    // things that vanish, or are rewritten, in some texts
    const VANISH: [&str; 20] = ["\u{ad}", "\u{200b}", "\u{feff}", "\u{200d}", "\u{2060}", "\u{0}", "\r", "\u{8}", "\u{301}", "&shy;", "<b></b>", "====", "<!-- x -->", "\\", " ", "\t", "@@", "<notextile></notextile>", "{}", "%%"];
    let (v, place) = ((kind / 8) as usize, kind % 8);
    let ins = VANISH[v % VANISH.len()];
    match place {
        0 => whole.replacen("textileR", &format!("tex{ins}tileR"), 1),
        1 => whole.replacen("Ref:", &format!("Ref{ins}:"), 1),
        2 => whole.replacen("Ref:", &format!("Ref:{ins}"), 1),
        3 => whole.replacen(TOK, &format!("{TOK}{ins}"), 1),
        4 => match v % 4 { 0 => whole.replacen("textile", "Textile", 1), 1 => whole.replacen("textileRef", "textileREf", 1), 2 => whole.replacen("textile", "texTILE", 1), _ => whole.replacen("textileRef", "TextileREF", 1) },
        5 => match v % 4 { 0 => whole.replacen("textile", "te&#120;tile", 1), 1 => whole.replacen("Ref:", "Ref&#58;", 1), 2 => whole.replacen("Ref:", "Ref&#x3a;", 1), _ => whole.replacen(TOK, &format!("{TOK}&colon;"), 1) },
        6 => match v % 4 { 0 => whole.replacen("textile", "textil%65", 1), 1 => whole.replacen("Ref:", "Ref%3A", 1), 2 => whole.replacen("textile", "ｔextile", 1), _ => whole.replacen("Ref:", "Ref：", 1) },
        _ if v % 3 == 0 => whole.replace(TOK, LOOK),
        _ => whole.replacen("Ref:", &format!("Ref:{ins}"), 1).replacen("textileR", &format!("t{ins}extileR"), 1),
    }
}
/// The same text with look-alikes of markers spelt a letter differently.
fn twin(txt: &str) -> String { txt.replace("Ref", "Qef").replace("REf", "QEf").replace("REF", "QEF") }
fn untwin(page: &str) -> String { page.replace("Qef", "Ref").replace("QEf", "REf").replace("QEF", "REF") }
fn forge(r: &mut Rng, d: &mut Vec<String>, damage: Option<u64>) {
    let m = format!("textileRef:{TOK}:");
    let id = r.range(0, 9);
    let suffix = match r.below(8) { 0 | 1 | 2 => format!("{id}:shelve"), 3 => format!("{id}:url"), 4 => format!("{id}:ospan x"), 5 => format!("x {id}:cspan"), 6 => ":glyph:".into(), _ => "linkStartMarker:\"x\":http://e.example/".into() };
    let whole = match r.below(5) {
        0 | 1 => format!("{m}{suffix}"),
        4 => {
            // nested deep, or side by side, many times
            let (cut, depth) = (r.idx(10) + 1, r.logu(3, 60) as usize);
            if r.chance(1, 3) { format!("{}{suffix}", m.repeat(depth * 4)) } else { format!("{}{m}{}{suffix}", m[..cut].repeat(depth), m[cut..].repeat(depth)) }
        }
        2 => { let cut = r.idx(m.len() - TOK.len() - 1) + 1; let cut = cut.min(10); format!("{}{}{}{}", &m[..cut], m, &m[cut..], suffix) }
        _ => { let cut = r.idx(9) + 1; let inner = format!("{}{}{}", &m[..cut], m, &m[cut..]); format!("{}{}{}{}", &m[..cut], inner, &m[cut..], suffix) }
    };
    let whole = match r.below(8) {
        // carriage returns and blank lines are rewritten before anything else
        0 => format!("\r\n{whole}\r"),
        2 => { let t = format!("textileRef:{TOK}:"); whole.replace(&t, &format!("{t}{t}")) }
        _ => whole,
    };
    // put together from pieces only after raw sections are put back
    let piece = |r: &mut Rng, t: &str| if r.chance(1, 2) { format!("[=={t}==]") } else { format!("[<notextile>{t}</notextile>]") };
    let whole = match damage {
        Some(k) if k % 5 == 4 => {
            let suffix = if r.chance(1, 3) { suffix.replacen(&id.to_string(), "99999999999", 1) } else { suffix };
            match r.below(4) {
                0 => { let p = piece(r, &format!(":{suffix}")); format!("textileRef:{TOK}{p}") }
                1 => { let p = piece(r, ""); format!("tex{p}tileRef:{TOK}:{suffix}") }
                2 => { let p = piece(r, &format!("textileRef:{TOK}:")); format!("{p}{suffix}") }
                _ => { let (p, q) = (piece(r, &format!("Ref:{TOK}")), piece(r, &suffix)); format!("textile{p}:{q}") }
            }
        }
        Some(k) => hurt(k, &format!("{m}{suffix}")),
        None => whole,
    };
    let i = r.idx(d.len());
    let b = &mut d[i];
    match r.below(4) {
        0 => *b = format!("{b} {whole}"),
        1 => { d.insert(i, whole); }
        2 => { let p = b.find(' ').map(|p| p + 1).unwrap_or(b.len()); b.insert_str(p, &whole); }
        _ => *b = format!("{b} \"l{whole}\":http://x.example/ =={whole}== @{whole}@"),
    }
}

// ---------------------------------------------------------------- judging

fn v(class: &str, msg: String) -> Option<(String, String)> { Some((class.into(), msg)) }
fn clip(s: &str) -> String { if s.chars().count() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s.into() } }
fn diff(want: &str, got: &str) -> String {
    let p = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    let mut st = p.saturating_sub(60);
    while !(want.is_char_boundary(st) && got.is_char_boundary(st)) { st -= 1; }
    format!("expected ...{:?} got ...{:?}", clip(&want[st..]), clip(&got[st..]))
}
/// Replays the settings of every slot along one thread's ops: effective settings at each op.
fn effective(ops: &[Op]) -> Vec<BTreeMap<usize, Cfg>> {
    let mut cur: BTreeMap<usize, Cfg> = BTreeMap::new();
    let mut out = vec![];
    for op in ops {
        match op {
            Op::New { slot, cfg } => { cur.insert(*slot, cfg.clone()); }
            Op::Set { slot, set } => { if let Some(c) = cur.get_mut(slot) { fold(c, set); } }
            Op::Drop { slot } => { cur.remove(slot); }
            _ => {}
        }
        out.push(cur.clone());
    }
    out
}
fn filler(op: &Op) -> bool { matches!(op, Op::Parse { doc, .. } if doc.first().map(|b| b == FILLER).unwrap_or(false)) }
fn panicked(r: &Res) -> bool { r.out.is_none() }
/// Judges one render against the pristine reference. `token`: learned token of a default parser.
fn same_as_reference(env: &mut Env, cfg: &Cfg, txt: &str, policy: Policy, netw: &[Server], got: &Res, token: &mut Option<String>) -> Option<(String, String)> {
    let ask = Cfg { uid: Some(cfg.uid.clone().unwrap_or_else(|| html::PLACEHOLDER.into())), ..cfg.clone() };
    let want = env.reference(&ask, txt, policy, netw);
    match (&want.out, &got.out) {
        (None, None) => None,
        (None, Some(_)) => v("outcome", format!("a fresh parser panics ({}) but this render returned", want.panic.unwrap_or_default())),
        (Some(_), None) => v("outcome", format!("render panicked ({}) where a fresh parser returns", got.panic.clone().unwrap_or_default())),
        (Some(w), Some(g)) => {
            if cfg.uid.is_some() {
                if w != g { return v("output", format!("differs from a fresh parser: {}", diff(w, g))); }
            } else {
                match html::match_token(w, g) {
                    Err(()) => return v("output", format!("differs from a fresh parser (up to its token): {}", diff(w, g))),
                    Ok(Some(t)) => { if let Some(old) = token { if *old != t { return v("token", format!("the parser's token changed from {old:?} to {t:?}")); } } *token = Some(t); }
                    Ok(None) => {}
                }
            }
            let urls = |r: &Res| { let mut u: Vec<String> = r.reqs.iter().map(|q| q.url.clone()).collect(); u.sort(); u };
            if urls(&want) != urls(got) { return v("requests", format!("requests differ from a fresh parser: {:?} against {:?}", urls(got), urls(&want))); }
            None
        }
    }
}
/// The network as it is at every op of a single-threaded run.
fn net_at(run: &Run, ops: &[Op]) -> Vec<Vec<Server>> {
    let mut cur: Vec<Server> = run.net.iter().map(|s| Server { url: net::key(&s.url), script: s.script.clone() }).collect();
    let mut out = vec![];
    for op in ops {
        if let Op::Serve { url, script } = op {
            let k = net::key(url);
            match cur.iter_mut().find(|s| s.url == k) { Some(s) => s.script = script.clone(), None => cur.push(Server { url: k, script: script.clone() }) }
        }
        out.push(cur.clone());
    }
    out
}
/// Every render of every thread against the pristine reference.
fn history_check(env: &mut Env, run: &Run, o: &Outcome, skip: &dyn Fn(&Op, &Res) -> bool, checks: &mut u64) -> Option<(String, String)> {
    for (t, ops) in run.threads.iter().enumerate() {
        let eff = effective(ops);
        let nets = net_at(run, ops);
        let mut tokens: BTreeMap<usize, Option<String>> = BTreeMap::new();
        for (i, op) in ops.iter().enumerate() {
            let Some(res) = o.at(t, i) else { continue };
            match op {
                Op::New { slot, .. } => {
                    tokens.remove(slot);
                    if let Some(p) = &res.panic { return v("construct", format!("thread {t} op {i}: creating a parser panicked: {p}")); }
                }
                Op::Set { slot, set } => { if let Setting::Uid(_) = set { tokens.remove(slot); } if let Some(p) = &res.panic { return v("construct", format!("thread {t} op {i}: changing a setting panicked: {p}")); } }
                Op::Parse { slot, doc, policy, .. } => {
                    if skip(op, res) { continue; }
                    let Some(c) = eff[i].get(slot) else { continue };
                    *checks += 1;
                    let tk = tokens.entry(*slot).or_default();
                    if let Some((k, m)) = same_as_reference(env, c, &text(doc), *policy, &nets[i], res, tk) { return v(&k, format!("thread {t} op {i}: {m}")); }
                }
                _ => {}
            }
        }
    }
    None
}
fn leaks(o: &Outcome) -> Option<(String, String)> {
    for r in &o.res {
        for q in &r.reqs { if !q.closed { return v("connection", format!("op {}: the connection for {} is still open after the render", r.op, q.url)); } }
    }
    None
}
fn image_dims(run_net: &[Server], out: &str, strict: bool, checks: &mut u64) -> Option<(String, String)> {
    for a in html::imgs(out) {
        let Some(src) = html::attr(&a, "src").map(html::unescape) else { continue };
        let Some(s) = run_net.iter().find(|s| net::key(&src) == net::key(&s.url)) else { continue };
        let d = match html::dims(&a) { Ok(d) => d, Err(e) => return v("attributes", format!("image {src}: {e}")) };
        *checks += 1;
        match (net::expect(&s.script), d) {
            (Expect::Exactly(w, h), Some(x)) if x == (w, h) => {}
            (Expect::Exactly(_, _), None) if !strict => {}
            (Expect::Exactly(w, h), None) => return v("missing size", format!("image {src} ({}): no size attributes although the {} bytes that tell {w}x{h} arrived", s.script.kind, s.script.need)),
            (Expect::Never, None) | (Expect::NeverOr(..), None) | (Expect::Any, _) => {}
            (Expect::NeverOr(w, h), Some(x)) if x == (w, h) => {}
            (e, Some(x)) => return v("wrong size", format!("image {src} ({}): got {}x{}, expected {e:?}", s.script.kind, x.0, x.1)),
        }
    }
    None
}
fn died(o: &Outcome) -> Option<(String, String)> {
    o.died.as_ref().map(|d| (d.split(' ').next().unwrap_or("HANG").to_string(), d.clone()))
}

pub fn check(env: &mut Env, run: &Run) -> Verdict {
    let mut ver = Verdict::default();
    if run.prop == "C11" { c11(env, run, &mut ver); return finish(ver, run); }
    let o = env.run(run);
    let mut n = 0u64;
    let viol = died(&o).or_else(|| match run.prop.as_str() {
        "C01" => {
            let ops = &run.threads[0];
            let mut off: Option<&Res> = None;
            let mut viol = None;
            for (i, op) in ops.iter().enumerate() { if let Op::Parse { slot: 0, .. } = op { off = o.at(0, i); } }
            for (i, op) in ops.iter().enumerate() {
                let (Op::Parse { slot: 1, .. }, Some(on)) = (op, o.at(0, i)) else { continue };
                let Some(off) = off else { continue };
                n += 1;
                viol = viol.or_else(|| match (&off.out, &on.out) {
                    (_, None) => v("panic", format!("render with lookup on panicked: {}", on.panic.clone().unwrap_or_default())),
                    (None, Some(_)) => None,
                    (Some(a), Some(b)) => html::only_sizes_added(a, b).err().and_then(|e| v("rest of page", e)).or_else(|| image_dims(&run.net, b, true, &mut n)),
                });
                viol = viol.or_else(|| if !off.reqs.is_empty() { v("request", "a request was made with lookup off".into()) } else { None });
            }
            viol.or_else(|| leaks(&o))
        }
        "C02" => {
            let mut viol = None;
            for (t, ops) in run.threads.iter().enumerate() {
                for (i, op) in ops.iter().enumerate() {
                    if let (Op::Parse { .. }, Some(Some(out))) = (op, o.at(t, i).map(|r| r.out.clone())) { viol = viol.or_else(|| image_dims(&run.net, &out, true, &mut n)); }
                }
            }
            viol
        }
        "C03" => c03(run, &o, &mut n),
        "C04" => c04(run, &o, &mut n),
        "C05" => {
            let v1 = history_check(env, run, &o, &|_, _| false, &mut n);
            v1.or_else(|| {
                // the token, learned from the output, set explicitly in a fresh process
                let ops = &run.threads[0];
                let eff = effective(ops);
                let mut tok: BTreeMap<usize, String> = BTreeMap::new();
                for (i, op) in ops.iter().enumerate() {
                    let (Op::Parse { slot, doc, policy, .. }, Some(Some(out))) = (op, o.at(0, i).map(|r| r.out.clone())) else { continue };
                    let Some(c) = eff[i].get(slot) else { continue };
                    let txt = text(doc);
                    let r = env.reference(&Cfg { uid: Some(html::PLACEHOLDER.into()), ..c.clone() }, &txt, *policy, &[]);
                    if let (Some(w), false) = (&r.out, tok.contains_key(slot)) {
                        if let Ok(Some(t)) = html::match_token(w, &out) { tok.insert(*slot, t); }
                    }
                    if let Some(t) = tok.get(slot) {
                        n += 1;
                        if t.is_empty() || !t.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_' || c == '.') { return v("token", format!("token {t:?} is not usable in an id")); }
                        let r = env.reference(&Cfg { uid: Some(t.clone()), ..c.clone() }, &txt, *policy, &[]);
                        if r.out.as_ref() != Some(&out) { return v("output", format!("op {i}: differs from a parser whose token was set to {t:?}")); }
                    }
                }
                None
            })
        }
        "C06" => c06(env, run, &o, &mut n),
        "C07" => history_check(env, run, &o, &|op, _| filler(op), &mut n).or_else(|| leaks(&o)),
        "C08" => {
            let lethal: BTreeSet<String> = run.net.iter().filter(|s| s.script.connect == Connect::Panic || s.script.tail == Tail::Panic).map(|s| tag_of(&s.url).to_string()).collect();
            let skip = |op: &Op, res: &Res| match op {
                op if filler(op) => true,
                Op::Parse { doc, act, .. } => (matches!(act, Some(HookAct::Panic) | Some(HookAct::RenderThenPanic { .. })) && !res.hook.is_empty()) || (panicked(res) && lethal.iter().any(|l| text(doc).contains(l.as_str()))),
                _ => false,
            };
            history_check(env, run, &o, &skip, &mut n).or_else(|| leaks(&o))
        }
        "C09" => {
            if run.seed % 4 != 0 { env.together(run); }
            let soft = history_check(env, run, &o, &|_, _| false, &mut n);
            env.soft.clear();
            // what counts is the parser that is alone in its process
            soft.and_then(|_| history_check(env, run, &o, &|_, _| false, &mut n))
        }
        "C10" => history_check(env, run, &o, &|_, _| false, &mut n),
        "C12" => c12(env, run, &o, &mut n),
        "C13" => c13(env, run, &o, &mut n),
        _ => None,
    });
    ver.viol = viol;
    ver.nontrivial = n > 0;
    ver.checks = n;
    ver.out = o;
    finish(ver, run)
}
fn finish(mut ver: Verdict, run: &Run) -> Verdict {
    ver.sched_sig = fnv(serde_json::to_string(&(&ver.out.switches, &run.net, run.wall, run.hash_seed, run.threads.len())).unwrap().as_bytes());
    ver.sig = fnv(serde_json::to_string(&ver.out).unwrap().as_bytes());
    ver
}

/// how often each URL can be read in the source of a note
fn note_urls(doc: &[String]) -> BTreeMap<String, usize> {
    let mut found = BTreeMap::new();
    for b in doc {
        let Some(at) = b.match_indices("note").map(|m| m.0).find(|&i| b[..i].rsplit('\n').next().unwrap_or("").trim().is_empty() && b[i..].contains('#')) else { continue };
        let b = &b[at..];
        for (i, _) in b.char_indices().filter(|(i, _)| b[*i..].get(..4).is_some_and(|p| p.eq_ignore_ascii_case("http"))) {
            let mut here = BTreeSet::new();
            let end = b[i..].find(char::is_whitespace).unwrap_or(b.len() - i);
            for (j, c) in b[i..i + end].char_indices().chain([(end, '!')]) {
                if matches!(c, '!' | '(' | '"') { here.insert(net::key(&html::unescape(&b[i..i + j]))); }
            }
            for k in here { *found.entry(k).or_default() += 1; }
        }
    }
    found
}
fn c03(run: &Run, o: &Outcome, n: &mut u64) -> Option<(String, String)> {
    if o.stray > 0 { return v("stray", format!("{} request(s) outside any render", o.stray)); }
    let ops = &run.threads[0];
    let eff = effective(ops);
    for (i, op) in ops.iter().enumerate() {
        let Some(r) = o.at(0, i) else { continue };
        let Op::Parse { slot, doc, .. } = op else { if !r.reqs.is_empty() { return v("stray", format!("op {i} made requests")) } else { continue } };
        let Some(c) = eff[i].get(slot) else { continue };
        *n += 1;
        if (!c.sizes || !c.images) && !r.reqs.is_empty() { return v("forbidden", format!("request to {} although {}", r.reqs[0].url, if c.sizes { "images are not allowed" } else { "size lookup is off" })); }
        let Some(out) = &r.out else {
            if c.sizes { return v("panic", format!("render panicked: {}", r.panic.clone().unwrap_or_default())); }
            continue;
        };
        let mut srcs: Vec<String> = html::imgs(out).iter().filter_map(|a| html::attr(a, "src").map(html::unescape)).filter_map(|s| url::Url::parse(&s).ok()).filter(|u| matches!(u.scheme(), "http" | "https")).map(|u| net::key(u.as_str())).collect();
        // images in the texts of notes are looked up whether or not a list shows the notes
        let mut in_notes = note_urls(doc);
        for q in &r.reqs {
            let k = net::key(&q.url);
            match srcs.iter().position(|s| *s == k) {
                Some(p) => { srcs.remove(p); }
                None if in_notes.get(&k).is_some_and(|m| *m > 0) => { *in_notes.get_mut(&k).unwrap() -= 1; }
                None => return v("wrong url", format!("request to {} which is no image on the page, or a repeated request for the same image; images without a request: {srcs:?}", q.url)),
            }
            if q.method != "GET" && q.method != "HEAD" { return v("method", format!("{} request to {}", q.method, q.url)); }
            if q.bytes > 1024 { return v("bytes", format!("{} body bytes were fetched from {} (at most 1024)", q.bytes, q.url)); }
            if !q.closed { return v("connection", format!("the connection for {} is still open after the render", q.url)); }
        }
    }
    None
}
fn c04(run: &Run, o: &Outcome, n: &mut u64) -> Option<(String, String)> {
    let ops = &run.threads[0];
    let nets = net_at(run, ops);
    let last = ops.iter().rposition(|op| matches!(op, Op::Parse { .. }));
    for (i, op) in ops.iter().enumerate() {
        let (Op::Parse { .. }, Some(r)) = (op, o.at(0, i)) else { continue };
        *n += 1;
        let Some(out) = &r.out else { return v("panic", format!("render panicked: {}", r.panic.clone().unwrap_or_default())) };
        let mut per: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
        for q in &r.reqs {
            if q.reads > 1040 { return v("reads", format!("{} reads from {}", q.reads, q.url)); }
            if q.after_timeout > 0 { return v("timeout", format!("{} further read(s) from {} after it had timed out", q.after_timeout, q.url)); }
            let e = per.entry(net::key(&q.url)).or_default();
            e.0 += 1;
            e.1 += q.timeouts;
            e.2 += q.wait_ms.saturating_sub(q.script_ms);
        }
        for (u, (reqs, timeouts, silent)) in per {
            let shown = html::imgs(out).iter().filter(|a| html::attr(a, "src").map(|s| net::key(&html::unescape(s)) == u).unwrap_or(false)).count().max(1) as u64;
            if reqs > shown { return v("requests", format!("{reqs} requests to {u} for {shown} image(s)")); }
            if timeouts > shown { return v("timeout", format!("{timeouts} timeouts waited out on {u} for {shown} image(s)")); }
            if silent > 60_000 * shown { return v("time", format!("{silent} ms spent waiting for the silent peer {u}")); }
        }
        if Some(i) == last && ops.iter().any(|x| matches!(x, Op::Serve { .. })) {
            // faults have stopped
            let served: Vec<Server> = nets[i].iter().filter(|s| ops.iter().any(|x| matches!(x, Op::Serve { url, .. } if net::key(url) == s.url))).cloned().collect();
            if let Some(x) = image_dims(&served, out, true, n) { return v("recovery", format!("after the faults stopped: {}", x.1)); }
        } else if let Some(x) = image_dims(&nets[i], out, false, n) { return Some(x); }
    }
    None
}
fn c06(env: &mut Env, run: &Run, o: &Outcome, n: &mut u64) -> Option<(String, String)> {
    // each instant: token from the shared process and from a process of its own
    let mut seen: Vec<((i64, u32), String, Vec<String>, String)> = vec![];
    let ops = &run.threads[0];
    let eff = effective(ops);
    let mut wall = run.wall;
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Clock { wall: w } => wall = *w,
            Op::New { slot, cfg } => {
                if let Some(p) = o.at(0, i).and_then(|r| r.panic.clone()) { return v("construct", format!("creating a parser at {wall:?} panicked: {p}")); }
                let Some(pi) = ops.iter().enumerate().position(|(j, x)| j > i && matches!(x, Op::Parse { slot: s, .. } if s == slot)) else { continue };
                let Op::Parse { doc, policy, .. } = &ops[pi] else { continue };
                let c = eff[pi].get(slot).unwrap_or(cfg).clone();
                if c.uid.is_some() { continue; }
                let r = env.reference(&Cfg { uid: Some(html::PLACEHOLDER.into()), ..c.clone() }, &text(doc), *policy, &[]);
                let Some(w) = r.out else { continue };
                let crowd = ops.len() > 60;
                let alone = Run { wall, threads: vec![vec![Op::New { slot: 0, cfg: c.clone() }, Op::Parse { slot: 0, doc: doc.clone(), policy: *policy, act: None }]], ..run.clone() };
                let here = o.at(0, pi).and_then(|r| r.out.clone());
                let oa = if crowd { Outcome::default() } else { env.run(&alone) };
                if let Some(d) = died(&oa) { return Some(d); }
                for (wh, out) in [("this process", here.clone()), ("a process of its own", if crowd { here } else { oa.at(0, 1).and_then(|r| r.out.clone()) })] {
                    let Some(out) = out else { return v("outcome", format!("render panicked at {wall:?}")) };
                    match html::match_token(&w, &out) {
                        Ok(Some(t)) => seen.push((wall, t, html::ids(&out), wh.into())),
                        _ => return v("output", format!("no single token explains the output: {}", diff(&w, &out))),
                    }
                }
            }
            _ => {}
        }
    }
    // the most crowded instants first by token, then every pair of a small run
    let mut by_tok: BTreeMap<&str, &((i64, u32), String, Vec<String>, String)> = BTreeMap::new();
    for x in &seen {
        env.tokens.push((x.1.clone(), x.0));
        if let Some(y) = by_tok.insert(&x.1, x) { if y.0 != x.0 { return v("collision", format!("parsers created at {:?} and {:?} share the token {:?}", x.0, y.0, x.1)); } }
    }
    *n += seen.len() as u64;
    if seen.len() > 60 { return None; }
    for (a, x) in seen.iter().enumerate() {
        for y in &seen[..a] {
            if x.0 == y.0 { continue; }
            *n += 1;
            if x.1 == y.1 { return v("collision", format!("parsers created at {:?} ({}) and {:?} ({}) share the token {:?}", x.0, x.3, y.0, y.3, x.1)); }
            if let Some(id) = x.2.iter().find(|i| y.2.contains(i)) { return v("collision", format!("parsers created at {:?} and {:?} both emit id {id:?}", x.0, y.0)); }
        }
    }
    None
}
fn c11(env: &mut Env, run: &Run, ver: &mut Verdict) {
    let ops = &run.threads[0];
    let Some(Op::New { cfg, .. }) = ops.first() else { return };
    // phase 1: an ordinary page shows the token
    let tok = match &cfg.uid {
        Some(u) => u.clone(),
        None => {
            let p1 = Run { threads: vec![vec![ops[0].clone(), parse(0, vec!["probe[1] word".into()])]], ..run.clone() };
            let o = env.run(&p1);
            if let Some(d) = died(&o) { ver.viol = Some(d); ver.out = o; return; }
            let w = env.reference(&Cfg { uid: Some(html::PLACEHOLDER.into()), ..cfg.clone() }, "probe[1] word", Policy::Plain, &[]);
            match (w.out, o.at(0, 1).and_then(|r| r.out.clone())) {
                (Some(w), Some(g)) => match html::match_token(&w, &g) { Ok(Some(t)) => t, _ => { ver.out = o; return } },
                _ => { ver.out = o; return }
            }
        }
    };
    // phase 2: the same history, and then the author uses it
    let mut p2 = run.clone();
    for op in &mut p2.threads[0] { if let Op::Parse { doc, .. } = op { for b in doc { *b = b.replace(TOK, &tok).replace(LOOK, &lookalike(&tok)); } } }
    let o = env.run(&p2);
    ver.viol = died(&o);
    if ver.viol.is_none() {
        let m = format!("textileRef:{tok}:");
        for (i, op) in p2.threads[0].iter().enumerate() {
            let (Op::Parse { doc, policy, .. }, Some(res)) = (op, o.at(0, i)) else { continue };
            let txt = text(doc);
            if !(txt.contains(&tok) || txt.contains(&lookalike(&tok))) || !twin(&txt).contains('Q') { continue; }
            ver.checks += 1;
            let c = Cfg { uid: Some(tok.clone()), ..cfg.clone() };
            let mut clean = txt.clone();
            while clean.contains(&m) { clean = clean.replace(&m, ""); }
            // what is left of near misses is ordinary text: spelt differently, it renders the same
            let want = env.reference(&c, &twin(&clean), *policy, &[]);
            if want.out.as_deref().map(untwin) == res.out.as_deref().map(untwin) { continue; }
            // an implementation may equally leave all of the author's text alone
            let plain = env.reference(&c, &twin(&txt), *policy, &[]);
            if plain.out.as_deref().map(untwin) == res.out.as_deref().map(untwin) { continue; }
            // or take a near miss out as well, when what it does first to every text makes it a marker
            let norm = |t: &str| t.replace("\r\n", "\n").replace('\r', "\n").replace('\u{feff}', "");
            let mut gone = norm(&txt);
            while gone.contains(&m) { gone = gone.replace(&m, ""); }
            let third = env.reference(&c, &twin(&gone), *policy, &[]);
            if third.out.as_deref().map(untwin) == res.out.as_deref().map(untwin) { continue; }
            ver.viol = v("forged marker", format!("op {i}: a marker in the text was taken for the parser's own: {}", diff(want.out.as_deref().unwrap_or("(panic)"), res.out.as_deref().unwrap_or("(panic)"))));
            break;
        }
    }
    ver.nontrivial = ver.checks > 0;
    ver.out = o;
}
/// Line breaks of a page are laid out after sanitizing: compare without them.
fn flat(s: &str) -> String { s.replace("<br />", "<br>").replace('\n', "") }
fn c12(env: &mut Env, run: &Run, o: &Outcome, n: &mut u64) -> Option<(String, String)> {
    for (t, ops) in run.threads.iter().enumerate() {
        let eff = effective(ops);
        let nets = net_at(run, ops);
        for (i, op) in ops.iter().enumerate() {
            let (Op::Parse { slot, doc, policy, act }, Some(res)) = (op, o.at(t, i)) else { continue };
            let Some(c) = eff[i].get(slot) else { continue };
            let txt = text(doc);
            let mut tk = None;
            *n += 1;
            let want_calls = if c.san == San::Hook { 1 } else { 0 };
            let blank = txt.trim().is_empty();
            if !panicked(res) && ((!blank && res.hook.len() != want_calls) || (blank && res.hook.len() > want_calls)) { return v("consultations", format!("thread {t} op {i}: the sanitizer hook was consulted {} times for one render, expected {want_calls}", res.hook.len())); }
            if let Some((k, m)) = same_as_reference(env, c, &txt, *policy, &nets[i], res, &mut tk) { return v(&k, format!("thread {t} op {i}: {m}")); }
            if let (false, true, Some(got)) = (blank, c.san != San::Off, &res.out) {
                let raw = env.reference(&Cfg { san: San::Off, uid: Some(c.uid.clone().unwrap_or_else(|| html::PLACEHOLDER.into())), ..c.clone() }, &txt, *policy, &nets[i]);
                if let (Some(raw), true) = (raw.out, c.uid.is_some()) {
                    let p = if c.san == San::Hook { *policy } else { Policy::Plain };
                    let want = exec::sanitized(p, &raw);
                    *n += 1;
                    if flat(&want) != flat(got) { return v("decision", format!("thread {t} op {i}: the page is not the unsanitized page sanitized under {p:?}: {}", diff(&flat(&want), &flat(got)))); }
                }
            }
            if let Some(HookAct::Render { slot, doc }) = act {
                for r in &res.inner {
                    let Some(c) = eff[i].get(slot) else { continue };
                    *n += 1;
                    if let Some((k, m)) = same_as_reference(env, c, &text(doc), Policy::Plain, &nets[i], r, &mut None) { return v(&k, format!("thread {t} op {i}, render inside the hook: {m}")); }
                }
            }
        }
    }
    None
}
/// Least memory held after a render and after a parser's end, for each pass through the operations.
fn held(run: &Run, o: &Outcome, pass: usize) -> Option<(i64, Option<i64>)> {
    let ops = &run.threads[0];
    let least = |drops: bool| o.res.iter().filter(|r| r.thread == 0 && r.op / ops.len() == pass && match &ops[r.op % ops.len()] { Op::Parse { .. } => !drops, Op::Drop { .. } => drops, _ => false }).map(|r| r.live).min();
    Some((least(false)?, least(true)))
}
fn c13(env: &mut Env, run: &Run, o: &Outcome, n: &mut u64) -> Option<(String, String)> {
    if run.reps < 4 { return None; }
    let (a, b) = (held(run, o, run.reps / 2 - 1)?, held(run, o, run.reps - 1)?);
    *n += 2;
    if std::env::var_os("SIM_DEBUG").is_some() { eprintln!("C13 held {a:?} then {b:?}"); }
    if b.0 <= a.0 && b.1 <= a.1 { return None; }
    // a table filled once, or bounded, has stopped growing long before the middle of a history four times as long
    let long = Run { reps: run.reps * 4, ..run.clone() };
    let o = env.run(&long);
    if let Some(d) = &o.died { return v("died", d.clone()); }
    let (a, b) = (held(&long, &o, long.reps / 2 - 1)?, held(&long, &o, long.reps - 1)?);
    let per = long.threads[0].iter().filter(|x| matches!(x, Op::Parse { .. })).count();
    let renders = (long.reps / 2) * per;
    if b.0 > a.0 { return v("growth", format!("memory held after a render grew from {} to {} bytes during the last {renders} of {} renders", a.0, b.0, renders * 2)); }
    if let (Some(x), Some(y)) = (a.1, b.1) { if y > x { return v("growth", format!("memory held after a parser was dropped grew from {x} to {y} bytes during the last {renders} of {} renders", renders * 2)); } }
    None
}

/// Renders, outside any simulation, the documents of the first `n` runs of every property: for measuring
/// how much of the code they reach.
pub fn cover(n: u64, master: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let dump = std::env::var_os("SIM_DUMP").is_some();
    for p in ALL {
        for i in 0..n {
            let run = gen(p, run_seed(master, p, i));
            for ops in &run.threads {
                let eff = effective(ops);
                for (k, op) in ops.iter().enumerate() {
                    let Op::Parse { slot, doc, .. } = op else { continue };
                    let Some(c) = eff[k].get(slot) else { continue };
                    let c = Cfg { sizes: false, ..c.clone() };
                    let page = std::panic::catch_unwind(|| exec::build(&c).parse(&text(doc)));
                    if dump { println!("{:?}", (c.uid.is_some(), page.ok().filter(|_| c.uid.is_some()))); }
                }
            }
        }
    }
}
