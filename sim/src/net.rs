//! The simulated network: servers following scripts, and genuine image headers to serve.
use crate::rng::Rng;
use crate::seams::{self, Point};
use crate::spec::*;
use reqwest::sim::{ReadOutcome, SendOutcome, Transport};
use std::collections::BTreeMap;
use std::time::Duration;

pub struct Conn {
    pub script: Script,
    pub pos: usize,
    seg: usize,
    seg_left: usize,
    fresh_seg: bool,
    hiccup: usize,
    pub open: bool,
    pub timed_out: bool,
    garbage: u64,
    head: bool,
    pub owner: (usize, usize), // thread, index in that thread's request log
}
#[derive(Default)]
pub struct NetState {
    pub servers: BTreeMap<String, Script>,
    pub conns: Vec<Conn>,
    /// per thread: requests of the render in progress (a stack, for re-entrant renders)
    pub cur: Vec<Vec<Vec<Req>>>,
    pub stray: u64,
    pub faults: BTreeMap<String, u64>,
}
static mut NET: Option<NetState> = None;
#[allow(static_mut_refs)]
pub fn net() -> &'static mut NetState { unsafe { NET.get_or_insert_with(Default::default) } }

/// A URL in normal form, without its fragment.
pub fn key(u: &str) -> String {
    let n = url::Url::parse(u).map(|x| x.to_string()).unwrap_or_else(|_| u.to_string());
    n.split('#').next().unwrap_or("").to_string()
}

pub struct SimTransport;
fn fault(k: &str) { *net().faults.entry(k.to_string()).or_default() += 1; }
fn wait(ms: u64) { seams::advance(ms as i128 * 1_000_000) }

impl SimTransport {
    fn req(&self, o: (usize, usize)) -> Option<&'static mut Req> {
        net().cur[o.0].last_mut().and_then(|v| v.get_mut(o.1))
    }
}
impl Transport for SimTransport {
    fn send(&self, method: &str, url: &str, range: Option<&str>, max_redirects: usize, timeout: Option<Duration>) -> SendOutcome {
        let q = seams::quiet();
        seams::point(Point::Send);
        let t = seams::tid().max(0) as usize;
        let n = net();
        if n.cur.len() <= t { n.cur.resize_with(t + 1, Vec::new); }
        let Some(log) = n.cur[t].last_mut() else { n.stray += 1; return SendOutcome::Connect("request outside a render") };
        let idx = log.len();
        log.push(Req { url: url.to_string(), method: method.to_string(), had_timeout: timeout.is_some(), closed: true, ..Default::default() });
        let r = log.last_mut().unwrap();
        let limit = timeout.map(|d| d.as_millis() as u64);
        let Some(mut s) = n.servers.get(&key(url)).cloned() else { fault("dns (unknown host)"); return SendOutcome::Connect("dns error") };
        let out = match s.connect {
            Connect::Refused => { fault("connection refused"); Some(SendOutcome::Connect("connection refused")) }
            Connect::Dns => { fault("dns failure"); Some(SendOutcome::Connect("dns error")) }
            Connect::Reset => { fault("reset before response"); Some(SendOutcome::Request("connection reset")) }
            Connect::Tls => { fault("tls failure"); Some(SendOutcome::Connect("invalid peer certificate")) }
            Connect::RedirectLoop => { fault("redirect loop"); Some(SendOutcome::Redirect) }
            Connect::Panic => { fault("transport thread died (send)"); Some(SendOutcome::Panic("event loop thread panicked")) }
            Connect::Stall => {
                fault("stall before response");
                match limit {
                    None => { drop(q); seams::die("HANG", "waiting for a silent peer with no timeout") }
                    Some(l) => { wait(l); r.wait_ms += l; r.timeouts += 1; Some(SendOutcome::Timeout) }
                }
            }
            Connect::Ok => None,
        };
        if let Some(o) = out { return o; }
        r.script_ms += s.connect_ms;
        if s.connect_ms > 0 { fault("slow response"); }
        if let Some(l) = limit { if s.connect_ms >= l { wait(l); r.wait_ms += l; r.timeouts += 1; return SendOutcome::Timeout; } }
        wait(s.connect_ms);
        r.wait_ms += s.connect_ms;
        if s.redirects > 0 {
            fault("redirect");
            if s.redirects as usize > max_redirects {
                if max_redirects > 0 { return SendOutcome::Redirect; }
                // redirects are not followed at all: the redirecting response itself is the answer
                s.status = 302; s.body.clear(); s.tail = Tail::Eof; s.content_length = Some(0);
            }
        }
        if let Some((a, b)) = range.and_then(|h| h.strip_prefix("bytes=")).and_then(|h| h.split_once('-')).filter(|_| s.ranges) {
            let from = a.parse::<usize>().unwrap_or(0).min(s.body.len());
            let to = b.parse::<usize>().map(|x| x + 1).unwrap_or(usize::MAX).clamp(from, s.body.len());
            if from == 0 && to == s.body.len() {} else { s.body = s.body[from..to].to_vec(); s.tail = Tail::Eof; s.content_length = Some(s.body.len() as u64); }
            if s.status == 200 { s.status = 206; }
        }
        if s.status / 100 != 2 { fault("error status"); }
        r.closed = false;
        let (status, content_length, content_type, extra) = (s.status, s.content_length, s.ctype.clone(), s.extra.clone());
        let final_url = if s.redirects > 0 { format!("{}?redirected={}", key(url), s.redirects) } else { url.to_string() };
        n.conns.push(Conn { script: s, pos: 0, seg: 0, seg_left: 0, fresh_seg: true, hiccup: 0, open: true, timed_out: false, garbage: 0x1234_5678, head: method == "HEAD", owner: (t, idx) });
        SendOutcome::Response { conn: n.conns.len() as u64 - 1, status, content_length, content_type, extra, final_url }
    }

    fn read(&self, conn: u64, buf: &mut [u8], timeout: Option<Duration>) -> ReadOutcome {
        let q = seams::quiet();
        seams::point(Point::Read);
        let n = net();
        let c = &mut n.conns[conn as usize];
        let mut dummy = Req::default();
        let r = match self.req(c.owner) { Some(r) => r, None => &mut dummy };
        r.reads += 1;
        if r.reads > 20_000 { drop(q); seams::die("HANG", "reads without end from one connection"); }
        if c.timed_out { r.after_timeout += 1; }
        if buf.is_empty() || c.head { return ReadOutcome::Data(0); }
        let limit = timeout.map(|d| d.as_millis() as u64);
        let s = &c.script;
        if c.hiccup < s.hiccups.len() && s.hiccups[c.hiccup] <= c.pos {
            c.hiccup += 1;
            fault("interrupted read");
            return ReadOutcome::Error(std::io::ErrorKind::Interrupted, "interrupted");
        }
        let total = s.body.len();
        if c.pos >= total && s.tail != Tail::GarbageForever {
            return match s.tail {
                Tail::Eof => { if total < s.need || s.truth.is_none() { fault("truncated body"); } ReadOutcome::Data(0) }
                Tail::Reset => { fault("reset mid-body"); ReadOutcome::Error(std::io::ErrorKind::ConnectionReset, "connection reset") }
                Tail::ShortBody => { fault("body shorter than declared"); ReadOutcome::Error(std::io::ErrorKind::UnexpectedEof, "unexpected eof") }
                Tail::Decode => { fault("undecodable body"); ReadOutcome::Error(std::io::ErrorKind::Other, "error decoding response body") }
                Tail::Panic => { fault("transport thread died (read)"); ReadOutcome::Panic("event loop thread panicked") }
                Tail::Stall => {
                    fault("stall mid-body");
                    match limit {
                        None => { drop(q); seams::die("HANG", "waiting for a silent peer with no timeout") }
                        Some(l) => { wait(l); r.wait_ms += l; r.timeouts += 1; c.timed_out = true; ReadOutcome::Timeout }
                    }
                }
                Tail::GarbageForever => unreachable!(),
            };
        }
        if c.seg_left == 0 {
            c.fresh_seg = true;
            c.seg_left = if s.cuts.is_empty() { usize::MAX } else { s.cuts[c.seg.min(s.cuts.len() - 1)].max(1) };
            c.seg += 1;
        }
        if c.fresh_seg && s.seg_ms > 0 {
            r.script_ms += s.seg_ms;
            fault("delayed segment");
            if let Some(l) = limit { if s.seg_ms >= l { wait(l); r.wait_ms += l; r.timeouts += 1; c.timed_out = true; return ReadOutcome::Timeout; } }
            wait(s.seg_ms);
            r.wait_ms += s.seg_ms;
        }
        c.fresh_seg = false;
        let mut k = buf.len().min(c.seg_left);
        if c.pos < total {
            k = k.min(total - c.pos);
            // a hiccup splits a segment
            if c.hiccup < s.hiccups.len() && s.hiccups[c.hiccup] > c.pos { k = k.min(s.hiccups[c.hiccup] - c.pos); }
            buf[..k].copy_from_slice(&s.body[c.pos..c.pos + k]);
        } else {
            if c.pos == total { fault("endless body"); }
            for b in &mut buf[..k] { c.garbage = crate::rng::splitmix(c.garbage); *b = c.garbage as u8; }
        }
        c.pos += k;
        c.seg_left -= k;
        if c.seg_left > 0 && k < buf.len() && c.pos < total { /* hiccup inside the segment */ }
        r.bytes += k as u64;
        ReadOutcome::Data(k)
    }

    fn close(&self, conn: u64) {
        let _q = seams::quiet();
        let c = &mut net().conns[conn as usize];
        c.open = false;
        if let Some(r) = self.req(c.owner) { r.closed = true; }
    }
}

/// What the img tag of an image served by `s` may carry.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Expect { Exactly(i64, i64), Never, NeverOr(i64, i64), Any }
pub fn expect(s: &Script) -> Expect {
    if s.connect != Connect::Ok { return Expect::Never; }
    let Some((w, h)) = s.truth else { return if s.kind.starts_with("hostile") { Expect::Any } else { Expect::Never } };
    if s.connect_ms >= 10_000 || s.seg_ms >= 10_000 { return Expect::NeverOr(w, h); }
    if s.body.len() < s.need { return if s.tail == Tail::GarbageForever { Expect::Any } else { Expect::NeverOr(w, h) }; }
    if s.need > 1024 || s.status / 100 != 2 || s.hiccups.iter().any(|h| *h < s.need) { return Expect::NeverOr(w, h); }
    Expect::Exactly(w, h)
}

pub const FORMATS: [&str; 17] = ["png", "gif87", "gif89", "bmp", "jpeg", "jpeg-exif", "webp-vp8", "webp-vp8l", "webp-vp8x", "ico", "cur", "qoi", "psd", "dds", "ktx", "tiff", "jpeg-big"];

fn be16(v: i64) -> [u8; 2] { (v as u16).to_be_bytes() }
fn be32(v: i64) -> [u8; 4] { (v as u32).to_be_bytes() }
fn le16(v: i64) -> [u8; 2] { (v as u16).to_le_bytes() }
fn le32(v: i64) -> [u8; 4] { (v as u32).to_le_bytes() }

/// A genuine image header: (bytes, (width, height), how many bytes determine them).
pub fn image(kind: &str, r: &mut Rng) -> (Vec<u8>, (i64, i64), usize) {
    let dim = |r: &mut Rng, max: i64| -> i64 { match r.below(6) { 0 => 1, 1 => max, 2 => r.range(1, 9), 3 => r.range(10, 300).min(max), _ => r.range(1, max) } };
    let pad = |r: &mut Rng, b: &mut Vec<u8>| { for _ in 0..r.below(1500) { b.push(r.next() as u8); } };
    let mut b: Vec<u8> = vec![];
    let (mut w, mut h) = (dim(r, 65535), dim(r, 65535));
    if matches!(kind, "qoi" | "ktx" | "dds") { w = dim(r, u32::MAX as i64); h = dim(r, u32::MAX as i64); }
    let need;
    match kind {
        "png" => {
            w = dim(r, i32::MAX as i64); h = dim(r, i32::MAX as i64);
            b.extend(b"\x89PNG\r\n\x1a\n\x00\x00\x00\x0dIHDR"); b.extend(be32(w)); b.extend(be32(h)); need = b.len();
            b.extend(b"\x08\x06\x00\x00\x00"); pad(r, &mut b);
        }
        "gif87" | "gif89" => { b.extend(if kind == "gif87" { b"GIF87a" } else { b"GIF89a" }); b.extend(le16(w)); b.extend(le16(h)); need = b.len(); b.extend(b"\xf7\x00\x00"); pad(r, &mut b); }
        "bmp" => {
            b.extend(b"BM"); b.extend(le32(1000)); b.extend(le32(0)); b.extend(le32(54)); b.extend(le32(40)); b.extend(le32(w));
            b.extend(le32(if r.chance(1, 3) { -h } else { h })); need = b.len(); b.extend(b"\x01\x00\x18\x00"); pad(r, &mut b);
        }
        "jpeg" | "jpeg-exif" | "jpeg-big" => {
            b.extend(b"\xff\xd8");
            let mut swap = false;
            if kind == "jpeg-exif" {
                let orient = r.range(1, 8);
                swap = orient >= 5;
                let mut t: Vec<u8> = b"Exif\x00\x00".to_vec();
                if r.chance(1, 2) {
                    t.extend(b"MM\x00\x2a\x00\x00\x00\x08\x00\x01"); t.extend(be16(274)); t.extend(be16(3)); t.extend(be32(1)); t.extend(be16(orient)); t.extend(b"\0\0\0\0\0\0");
                } else {
                    t.extend(b"II\x2a\x00\x08\x00\x00\x00\x01\x00"); t.extend(le16(274)); t.extend(le16(3)); t.extend(le32(1)); t.extend(le16(orient)); t.extend(b"\0\0\0\0\0\0");
                }
                b.extend(b"\xff\xe1"); b.extend(be16(t.len() as i64 + 2)); b.extend(t);
            } else {
                b.extend(b"\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00");
            }
            let room = if kind == "jpeg-big" { 1100 } else { 900 };
            let target = if kind == "jpeg-big" { r.range(1017, room) } else if r.chance(1, 4) { r.range(990, 1015) } else { r.range(0, room) } as usize;
            // filler sections (tables, comments) up to `target`
            while b.len() + 4 < target {
                let n = (target - b.len() - 4).min(r.range(0, 400) as usize);
                b.extend(r.pick(&[&b"\xff\xdb"[..], b"\xff\xfe", b"\xff\xe2", b"\xff\xc4", b"\xff\xed"]).iter());
                b.extend(be16(n as i64 + 2));
                // filler that looks like frame headers
                for i in 0..n { b.push(if r.chance(1, 3) { *r.pick(&[0xff, 0xc0, 0xd8, 0xe1, 0]) } else { (i * 7) as u8 }); }
            }
            b.extend(r.pick(&[&b"\xff\xc0"[..], b"\xff\xc1", b"\xff\xc2"]).iter()); b.extend(b"\x00\x11\x08"); b.extend(be16(h)); b.extend(be16(w)); need = b.len();
            b.extend(b"\x03\x01\x22\x00\x02\x11\x01\x03\x11\x01"); pad(r, &mut b);
            if swap { std::mem::swap(&mut w, &mut h); }
        }
        "webp-vp8" => {
            w = dim(r, 16383); h = dim(r, 16383);
            b.extend(b"RIFF\x24\x10\x00\x00WEBPVP8 \x18\x10\x00\x00\x30\x01\x00\x9d\x01\x2a"); b.extend(le16(w | (r.range(0, 3) << 14))); b.extend(le16(h | (r.range(0, 3) << 14))); need = b.len(); pad(r, &mut b);
        }
        "webp-vp8l" => {
            w = dim(r, 16384); h = dim(r, 16384);
            b.extend(b"RIFF\x24\x10\x00\x00WEBPVP8L\x18\x10\x00\x00\x2f"); b.extend(le32((w - 1) | ((h - 1) << 14))); need = b.len(); pad(r, &mut b);
        }
        "webp-vp8x" => {
            w = dim(r, 1 << 24); h = dim(r, 1 << 24);
            b.extend(b"RIFF\x24\x10\x00\x00WEBPVP8X\x0a\x00\x00\x00\x10\x00\x00\x00"); b.extend(&le32(w - 1)[..3]); b.extend(&le32(h - 1)[..3]); need = b.len(); pad(r, &mut b);
        }
        "ico" | "cur" => {
            w = dim(r, 256); h = dim(r, 256);
            let n = if r.chance(1, 3) { r.range(2, 60) } else { 1 };
            b.extend(if kind == "ico" { b"\0\0\x01\0" } else { b"\0\0\x02\0" }); b.extend(le16(n));
            for i in 0..n {
                let (a, c) = if i == 0 { (w, h) } else { (r.range(1, 256), r.range(1, 256)) };
                b.push(a as u8); b.push(c as u8); b.extend(b"\0\0\x01\x00\x20\x00"); b.extend(le32(r.range(100, 5000))); b.extend(le32(r.range(22, 5000)));
            }
            need = b.len(); pad(r, &mut b);
        }
        "qoi" => { b.extend(b"qoif"); b.extend(be32(w)); b.extend(be32(h)); need = b.len(); b.extend(b"\x04\x00"); pad(r, &mut b); }
        "psd" => { b.extend(b"8BPS\0\x01\0\0\0\0\0\0\0\x03"); b.extend(be32(h)); b.extend(be32(w)); need = b.len(); b.extend(b"\0\x08\0\x03"); pad(r, &mut b); }
        "dds" => { b.extend(b"DDS \x7c\0\0\0\x07\x10\x08\0"); b.extend(le32(h)); b.extend(le32(w)); need = b.len(); pad(r, &mut b); }
        "ktx" => { b.extend(b"\xABKTX 11\xBB\r\n\x1A\n\x01\x02\x03\x04"); for _ in 0..5 { b.extend(le32(r.range(0, 9))); } b.extend(le32(w)); b.extend(le32(h)); need = b.len(); pad(r, &mut b); }
        "tiff" => {
            // IFD right after the header; need = end of the directory
            b.extend(b"II\x2a\x00\x08\x00\x00\x00"); b.extend(le16(2));
            b.extend(le16(256)); b.extend(le16(3)); b.extend(le32(1)); b.extend(le16(w)); b.extend(le16(0));
            b.extend(le16(257)); b.extend(le16(3)); b.extend(le32(1)); b.extend(le16(h)); b.extend(le16(0));
            b.extend(le32(0)); need = b.len(); pad(r, &mut b);
        }
        _ => panic!("unknown format {kind}"),
    }
    (b, (w, h), need)
}

pub fn healthy(r: &mut Rng) -> Script {
    let kind = *r.pick(&FORMATS[..16]);
    let (body, truth, need) = image(kind, r);
    let mut s = Script { kind: kind.into(), connect: Connect::Ok, connect_ms: r.range(0, 300) as u64, redirects: 0, status: 200, content_length: Some(body.len() as u64), ctype: None, extra: vec![], ranges: r.chance(1, 2), body, cuts: vec![], seg_ms: 0, hiccups: vec![], tail: Tail::Eof, truth: Some(truth), need };
    segment(&mut s, r);
    if r.chance(1, 8) { s.redirects = r.range(1, 9) as u32; }
    if r.chance(1, 4) { s.content_length = None; }
    else if r.chance(1, 8) { s.content_length = Some(*r.pick(&[100_000u64, i32::MAX as u64, 1 << 31, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 2])); s.tail = Tail::ShortBody; }
    s.ctype = match r.below(8) { 6 => Some(r.pick(&["", "image", ";;", "image/пнг", "image/png; charset=\"", "image/*", "multipart/byteranges; boundary=x"]).to_string()), 0 => None, 1 => Some("application/octet-stream".into()), 2 => Some("text/html; charset=utf-8".into()), 3 => Some("IMAGE/PNG".into()), _ => Some(format!("image/{}", kind.split('-').next().unwrap())) };
    if r.chance(1, 12) { s.status = *r.pick(&[203u16, 206, 201]); }
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            let (k, v) = *r.pick(&[("content-range", "bytes 0-1023/*"), ("content-range", "bytes"), ("content-encoding", "br"), ("content-encoding", "identity"), ("accept-ranges", "none"), ("etag", "é\""), ("cache-control", "no-store"), ("connection", "close"), ("retry-after", "soon"), ("set-cookie", "a=b"), ("content-disposition", "attachment; filename=\"x.png\""), ("transfer-encoding", "chunked"), ("location", ":::"), ("last-modified", "yesterday"), ("x-image-width", "7")]);
            s.extra.push((k.into(), v.into()));
        }
    }
    s
}
/// Choose how the body is cut into segments.
pub fn segment(s: &mut Script, r: &mut Rng) {
    s.cuts = match r.below(8) {
        0 => vec![],
        1 => vec![1],
        2 => vec![s.need.max(1)],
        3 => vec![s.need.saturating_sub(1).max(1), 1],
        4 => vec![r.range(1, 40) as usize],
        5 => vec![r.range(1, s.need.max(2) as i64 - 1) as usize, r.range(1, 2000) as usize],
        6 => (0..r.range(1, 12)).map(|_| r.logu(1, 600) as usize).collect(),
        _ => vec![r.range(1000, 1030) as usize, r.range(1, 40) as usize],
    };
    if r.chance(1, 4) { s.seg_ms = r.range(1, 4) as u64; }
}
/// A server that is unreachable or breaks off; `lethal` faults make the render itself unwind.
pub fn faulty(r: &mut Rng) -> Script {
    let mut s = healthy(r);
    match r.below(14) {
        0 => s.connect = Connect::Refused,
        1 => s.connect = Connect::Dns,
        2 => s.connect = Connect::Reset,
        3 => s.connect = Connect::Tls,
        4 => s.connect = Connect::Stall,
        5 => s.connect = Connect::RedirectLoop,
        6 => { s.status = *r.pick(&[404u16, 500, 403, 503, 204, 301]); if r.chance(1, 2) { s.body = b"<html>not found</html>".to_vec(); s.truth = None; s.kind = "page".into(); } }
        7 | 8 | 9 => {
            // cut off somewhere, mostly around the point where the dimensions are known
            let at = match r.below(4) { 0 => s.need, 1 => s.need.saturating_sub(1), 2 => r.idx(s.need + 1), _ => r.idx(s.body.len() + 1) };
            s.body.truncate(at);
            s.tail = *r.pick(&[Tail::Eof, Tail::Reset, Tail::Stall, Tail::ShortBody, Tail::Decode]);
            if s.tail == Tail::Eof && r.chance(1, 2) { s.content_length = Some(s.body.len() as u64); }
        }
        10 => { s.body = hostile(r); s.truth = None; s.kind = "hostile bytes".into(); s.tail = *r.pick(&[Tail::Eof, Tail::Reset, Tail::GarbageForever]); }
        11 => { s.body.clear(); s.tail = *r.pick(&[Tail::Eof, Tail::Stall, Tail::Reset]); }
        12 => { for _ in 0..r.range(1, 3) { s.hiccups.push(r.idx(s.need + 4)); } s.hiccups.sort(); }
        _ => { s.tail = Tail::GarbageForever; }
    }
    s
}
/// A slow or endless peer.
pub fn slow(r: &mut Rng) -> Script {
    let mut s = healthy(r);
    match r.below(6) {
        0 => s.connect = Connect::Stall,
        1 => { s.connect_ms = r.range(1_000, 120_000) as u64; }
        2 => { s.body.truncate(r.idx(s.need.max(1))); s.tail = Tail::Stall; }
        3 => { s.cuts = vec![r.range(1, 3) as usize]; s.seg_ms = r.range(1, 29_000) as u64; if r.chance(1, 2) { s.body = vec![b'x'; 4000]; s.truth = None; s.kind = "page".into(); } }
        4 => { s.body = b"<!DOCTYPE html>".to_vec(); s.truth = None; s.kind = "hostile endless".into(); s.tail = Tail::GarbageForever; s.cuts = vec![r.range(1, 5000) as usize]; }
        _ => { s.connect_ms = r.range(20_000, 29_900) as u64; s.body.truncate(r.idx(s.need.max(1))); s.tail = Tail::Stall; }
    }
    s
}
/// Bytes that resemble an image and are not one, or are a damaged one.
pub fn hostile(r: &mut Rng) -> Vec<u8> {
    let kind = *r.pick(&FORMATS);
    let (mut b, _, need) = image(kind, r);
    match r.below(5) {
        0 => {
            let n = r.logu(1, 1200) as usize;
            let mut v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            // never the two formats of known findings F1 / F2
            if v.len() > 4 && (&v[..4] == b"icns" || &v[4..8.min(v.len())] == b"jP  ") { v[0] ^= 1; v[4] ^= 1; }
            v
        }
        1 | 2 => {
            // flip bytes, mostly in the header
            for _ in 0..r.range(1, 6) { let i = if r.chance(3, 4) { r.idx(need.min(b.len())) } else { r.idx(b.len()) }; b[i] = *r.pick(&[0, 0xff, 0x7f, 0x80, 1, 2, 0xd8, 0xe1, (i as u8) ^ 0x55]); }
            b
        }
        3 => {
            // JPEG with absurd section lengths
            let mut v = b"\xff\xd8".to_vec();
            for _ in 0..r.range(1, 6) { v.extend([0xff, *r.pick(&[0xe1u8, 0xe0, 0xdb, 0xfe])]); v.extend(be16(*r.pick(&[0, 1, 2, 3, 4, 8, 9, 14, 16, 20, 65535]))); if r.chance(1, 2) { v.extend(b"Exif\x00\x00MM\x00*"); } for _ in 0..r.below(40) { v.push(*r.pick(&[0u8, 0xff, 0x12, 8])); } }
            v
        }
        _ => {
            // BMP / TIFF extremes
            if r.chance(1, 2) {
                let mut v = b"BM".to_vec(); v.extend([0; 16]); v.extend(le32(*r.pick(&[0, -1, i32::MIN as i64, i32::MAX as i64]))); v.extend(le32(*r.pick(&[0, -1, i32::MIN as i64, i32::MAX as i64]))); v.extend([1, 0, 24, 0]); v
            } else {
                let mut v = if r.chance(1, 2) { b"II".to_vec() } else { b"MM".to_vec() };
                let le = v[0] == b'I';
                let p16 = |v: &mut Vec<u8>, x: i64| v.extend(if le { le16(x) } else { be16(x) });
                p16(&mut v, *r.pick(&[42, 43, 42]));
                for _ in 0..r.range(2, 60) { let x = *r.pick(&[0i64, 1, 8, 256, 257, 3, 4, 65535, 16]); p16(&mut v, x); }
                v
            }
        }
    }
}
