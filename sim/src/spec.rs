//! A run, completely: one value of `Run` plus the code under test is one execution.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Run {
    pub prop: String,
    /// seed this run was generated from (and of the scheduler, when `sched` is Random)
    pub seed: u64,
    pub hash_seed: u64,
    /// wall clock at the start: (seconds, nanoseconds) since the epoch
    pub wall: (i64, u32),
    /// wall clock advance per reading, ns (may be negative or zero)
    pub tick: i64,
    pub env: Vec<(String, String)>,
    /// heap layout perturbation (0 = none)
    pub heap: u64,
    pub sched: SchedSpec,
    pub net: Vec<Server>,
    pub threads: Vec<Vec<Op>>,
    /// how often each thread goes through its operations; `⟦n⟧` in a text counts the renders, and
    /// `New` does nothing while its slot is taken
    #[serde(default = "once")]
    pub reps: usize,
}
fn once() -> usize { 1 }

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum SchedSpec {
    Seq,
    Random { gap: u64 },
    Edges { gap: u64 },
    Rare { rate: u64 },
    /// (thread, thread-local point, to)
    Explicit(Vec<(i32, u64, i32)>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Server {
    pub url: String,
    pub script: Script,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Connect { Ok, Refused, Dns, Reset, Tls, Stall, RedirectLoop, Panic }
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tail { Eof, Reset, Stall, ShortBody, Decode, GarbageForever, Panic }

/// What one server does with a request.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Script {
    /// name of the image format, or of the hostile body
    pub kind: String,
    pub connect: Connect,
    pub connect_ms: u64,
    pub redirects: u32,
    pub status: u16,
    pub content_length: Option<u64>,
    #[serde(default)]
    pub ctype: Option<String>,
    /// further headers of the response
    #[serde(default)]
    pub extra: Vec<(String, String)>,
    /// honours Range requests
    #[serde(default)]
    pub ranges: bool,
    #[serde(with = "hex")]
    pub body: Vec<u8>,
    /// sizes of the segments the body arrives in (the last one repeats; empty = one segment)
    pub cuts: Vec<usize>,
    /// delay before every segment
    pub seg_ms: u64,
    /// body offsets at which one read fails with `Interrupted`
    pub hiccups: Vec<usize>,
    pub tail: Tail,
    /// the true dimensions, when the body is (the beginning of) a genuine image
    pub truth: Option<(i64, i64)>,
    /// how many bytes of the image determine its dimensions
    pub need: usize,
}

pub mod hex {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        let mut o = String::with_capacity(v.len() * 2);
        for b in v {
            o.push(char::from_digit((b >> 4) as u32, 16).unwrap());
            o.push(char::from_digit((b & 15) as u32, 16).unwrap());
        }
        s.serialize_str(&o)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        let h = s.as_bytes();
        let v = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
        Ok(h.chunks(2).map(|c| v(c[0]) << 4 | v(*c.get(1).unwrap_or(&b'0'))).collect())
    }
}

/// Effective settings of a parser.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Cfg {
    /// None = keep the clock-based token
    pub uid: Option<String>,
    pub xhtml: bool,
    pub restricted: bool,
    pub lite: bool,
    pub images: bool,
    pub blocks: bool,
    pub raw: bool,
    pub sizes: bool,
    pub rel: Option<String>,
    pub san: San,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { uid: None, xhtml: false, restricted: false, lite: false, images: true, blocks: true, raw: false, sizes: false, rel: None, san: San::Off }
    }
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum San { Off, Default, Hook }

/// What the sanitizer hook decides when it is consulted.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Policy { Plain, Rel, NoImg, NoLinks, OnlyText, Classes, AbsoluteOnly }

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Setting {
    Uid(String), Xhtml(bool), Restricted(bool), Lite(bool), Images(bool), Blocks(bool), Raw(bool), Sizes(bool),
    Rel(Option<String>), San(San),
}

/// What the sanitizer hook does besides deciding.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HookAct {
    Panic,
    /// render another document, with parser `slot`, from inside the hook
    Render { slot: usize, doc: Vec<String> },
    RenderThenPanic { slot: usize, doc: Vec<String> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// `Textile::default()` + settings, into a slot of this thread
    New { slot: usize, cfg: Cfg },
    Set { slot: usize, set: Setting },
    Parse { slot: usize, doc: Vec<String>, policy: Policy, act: Option<HookAct> },
    Serve { url: String, script: Script },
    /// set the wall clock
    Clock { wall: (i64, u32) },
    /// let simulated time pass
    Wait { ms: u64 },
    Drop { slot: usize },
}

pub fn text(doc: &[String]) -> String { doc.join("\n\n") }

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Req {
    pub url: String,
    pub method: String,
    pub reads: u64,
    pub bytes: u64,
    pub timeouts: u64,
    pub after_timeout: u64,
    pub closed: bool,
    pub had_timeout: bool,
    /// simulated ms: asked by the script itself / actually elapsed
    pub script_ms: u64,
    pub wait_ms: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Res {
    pub thread: usize,
    pub op: usize,
    /// Some(html), or None with `panic` set
    pub out: Option<String>,
    pub panic: Option<String>,
    /// the op had nothing to act on (only in minimised runs)
    pub skipped: bool,
    pub reqs: Vec<Req>,
    /// policies handed out, one per consultation of the hook
    pub hook: Vec<Policy>,
    pub inner: Vec<Res>,
    /// wall clock when the op started
    pub wall: (i64, u32),
    /// simulated ms the op took
    pub ms: u64,
    /// live heap bytes owned by the system after the op
    pub live: i64,
    /// allocations made by the op
    pub steps: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Outcome {
    pub res: Vec<Res>,
    /// requests made outside any render
    pub stray: u64,
    /// the run ended early: HANG / DEADLOCK / CRASH text
    pub died: Option<String>,
    pub switches: Vec<(i32, u64, i32)>,
    pub points: u64,
    pub sim_ms: u64,
    pub clock_reads: u64,
    pub random_draws: u64,
    pub futex_waits: u64,
    pub faults: BTreeMap<String, u64>,
}
impl Outcome {
    pub fn at(&self, thread: usize, op: usize) -> Option<&Res> {
        self.res.iter().find(|r| r.thread == thread && r.op == op && !r.skipped)
    }
}
