//! What the real `reqwest` does, on the loopback network, in each situation the simulated one
//! (/verif/sim/stub-reqwest, /verif/sim/src/net.rs) is made to reproduce. Not a check: run by hand when the
//! simulated transport changes. Prints one line per scenario and exits 1 if any differs from the simulation.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn server(f: impl Fn(&mut TcpStream, usize) + Send + Sync + 'static) -> String {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    std::thread::spawn(move || {
        for (i, s) in l.incoming().enumerate() {
            let mut s = s.unwrap();
            let mut head = vec![];
            let mut b = [0u8; 1];
            while !head.ends_with(b"\r\n\r\n") { match s.read(&mut b) { Ok(1) => head.push(b[0]), _ => break } }
            f(&mut s, i);
        }
    });
    format!("http://{a}/x.png")
}
/// (how sending ended, bytes read, how reading ended, reads with data, seconds)
fn fetch(url: &str) -> (String, usize, String, usize, u64) {
    let t = Instant::now();
    let mut r = match reqwest::blocking::get(url) {
        Ok(r) => r,
        Err(e) => {
            let k = if e.is_timeout() { "timeout" } else if e.is_connect() { "connect" } else if e.is_redirect() { "redirect" } else if e.is_builder() { "builder" } else { "request" };
            return (k.into(), 0, String::new(), 0, t.elapsed().as_secs());
        }
    };
    let st = r.status().as_u16().to_string();
    let (mut n, mut reads, mut buf) = (0, 0, [0u8; 1024]);
    loop {
        if n >= 4096 { return (st, n, "more".into(), reads, t.elapsed().as_secs()); }
        match r.read(&mut buf) {
            Ok(0) => return (st, n, "end".into(), reads, t.elapsed().as_secs()),
            Ok(k) => { n += k; reads += 1 }
            Err(e) => {
                let timeout = e.get_ref().and_then(|e| e.downcast_ref::<reqwest::Error>()).map(|e| e.is_timeout()).unwrap_or(false) || e.kind() == std::io::ErrorKind::TimedOut;
                return (st, n, if timeout { "timeout".into() } else { "error".into() }, reads, t.elapsed().as_secs());
            }
        }
    }
}
fn ok(s: &mut TcpStream, extra: &str) { let _ = write!(s, "HTTP/1.1 200 OK\r\n{extra}\r\n"); }
fn reset(s: &TcpStream) {
    // closing with unread data and no linger sends RST
    extern "C" { fn setsockopt(fd: i32, l: i32, o: i32, v: *const [i32; 2], n: u32) -> i32; }
    use std::os::fd::AsRawFd;
    unsafe { setsockopt(s.as_raw_fd(), 1, 13, &[1, 0], 8) };
}
type Want = (&'static str, usize, &'static str, Option<usize>, u64);
fn main() {
    for k in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"] { std::env::remove_var(k); }
    let dead = { let l = TcpListener::bind("127.0.0.1:0").unwrap(); format!("http://{}/", l.local_addr().unwrap()) };
    let (tx, rx) = mpsc::channel();
    let closed = server(move |s, _| { ok(s, "Content-Length: 100000000\r\n"); let b = [7u8; 4096]; while s.write_all(&b).is_ok() {} tx.send(()).unwrap(); });
    let list: Vec<(&str, String, Want)> = vec![
        ("connection refused", dead, ("connect", 0, "", None, 0)),
        ("unknown host", "http://no-such-host.invalid/".into(), ("connect", 0, "", None, 0)),
        ("reset before response", server(|s, _| reset(s)), ("request", 0, "", None, 0)),
        ("whole body", server(|s, _| { ok(s, "Content-Length: 5\r\n"); let _ = s.write_all(b"hello"); }), ("200", 5, "end", None, 0)),
        ("body until close", server(|s, _| { ok(s, ""); let _ = s.write_all(b"hello"); }), ("200", 5, "end", None, 0)),
        ("body shorter than declared", server(|s, _| { ok(s, "Content-Length: 50\r\n"); let _ = s.write_all(b"hello"); }), ("200", 5, "error", None, 0)),
        ("absurd length", server(|s, _| { ok(s, "Content-Length: 18446744073709551610\r\n"); let _ = s.write_all(b"hello"); }), ("200", 5, "error", None, 0)),
        ("reset mid-body", server(|s, _| { ok(s, "Content-Length: 50\r\n"); let _ = s.write_all(b"hello"); std::thread::sleep(Duration::from_millis(200)); reset(s); }), ("200", 5, "error", None, 0)),
        ("undecodable chunk", server(|s, _| { ok(s, "Transfer-Encoding: chunked\r\n"); let _ = s.write_all(b"5\r\nhello\r\nzz\r\n"); }), ("200", 5, "error", None, 0)),
        ("three segments", server(|s, _| { ok(s, "Content-Length: 9\r\n"); for _ in 0..3 { let _ = s.write_all(b"abc"); std::thread::sleep(Duration::from_millis(200)); } }), ("200", 9, "end", Some(3), 0)),
        ("error status with a body", server(|s, _| { let _ = s.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 5\r\n\r\nhello"); }), ("404", 5, "end", None, 0)),
        ("partial content", server(|s, _| { let _ = s.write_all(b"HTTP/1.1 206 Partial\r\nContent-Length: 5\r\n\r\nhello"); }), ("206", 5, "end", None, 0)),
        ("endless body", closed, ("200", 4096, "more", None, 0)),
        ("redirects", server(|s, i| { if i < 3 { let _ = write!(s, "HTTP/1.1 302 F\r\nConnection: close\r\nContent-Length: 0\r\nLocation: /n{i}\r\n\r\n"); } else { ok(s, "Content-Length: 5\r\n"); let _ = s.write_all(b"hello"); } }), ("200", 5, "end", None, 0)),
        ("redirect loop", server(|s, i| { let _ = write!(s, "HTTP/1.1 302 F\r\nConnection: close\r\nContent-Length: 0\r\nLocation: /n{i}\r\n\r\n"); }), ("redirect", 0, "", None, 0)),
        ("stall before response", server(|_, _| std::thread::sleep(Duration::from_secs(100))), ("timeout", 0, "", None, 30)),
        ("stall mid-body", server(|s, _| { ok(s, "Content-Length: 50\r\n"); let _ = s.write_all(b"hello"); std::thread::sleep(Duration::from_secs(100)); }), ("200", 5, "timeout", None, 30)),
        ("slow but alive: a segment every 20 s", server(|s, _| { ok(s, "Content-Length: 9\r\n"); for _ in 0..3 { std::thread::sleep(Duration::from_secs(20)); let _ = s.write_all(b"abc"); } }), ("200", 9, "end", Some(3), 60)),
        ("tls against a plain server", { let l = TcpListener::bind("127.0.0.1:0").unwrap(); let a = l.local_addr().unwrap(); std::thread::spawn(move || for s in l.incoming() { let _ = s.unwrap().write_all(b"HTTP/1.1 400 plain\r\n\r\n"); }); format!("https://{a}/") }, ("connect", 0, "", None, 0)),
        ("a scheme that is not http", "ftp://127.0.0.1/x".into(), ("builder", 0, "", None, 0)),
        ("a URL without a host", "data:image/png,x".into(), ("builder", 0, "", None, 0)),
    ];
    let hs: Vec<_> = list.into_iter().map(|(name, url, want)| std::thread::spawn(move || (name, fetch(&url), want))).collect();
    let mut bad = 0;
    for h in hs {
        let (name, got, want) = h.join().unwrap();
        let same = got.0 == want.0 && got.1 == want.1 && got.2 == want.2 && want.3.map(|w| w == got.3).unwrap_or(true) && got.4.abs_diff(want.4) <= 2;
        bad += !same as i32;
        println!("{} {name}: {got:?}{}", if same { "as simulated  " } else { "DIFFERS       " }, if same { String::new() } else { format!(", simulated as {want:?}") });
    }
    match rx.recv_timeout(Duration::from_secs(5)) { Ok(()) => println!("as simulated   dropping the response closes the connection"), Err(_) => { bad += 1; println!("DIFFERS        the connection stays open after the response was dropped") } }
    std::process::exit((bad > 0) as i32)
}
