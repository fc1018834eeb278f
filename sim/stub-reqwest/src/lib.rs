//! Simulated `reqwest` (blocking subset). See `sim` for the seam the simulator plugs into.
use std::fmt;
use std::time::Duration;

pub use http::header;
pub use http::Method;
pub use http::{StatusCode, Version};
pub use url::Url;

pub type Result<T> = std::result::Result<T, Error>;

/// The seam: the simulator installs a transport, and every request and every body
/// read goes through it.
pub mod sim {
    use std::time::Duration;

    /// How one send ended.
    pub enum SendOutcome {
        /// Response headers arrived: connection id, status, declared content length, final URL.
        Response { conn: u64, status: u16, content_length: Option<u64>, content_type: Option<String>, extra: Vec<(String, String)>, final_url: String },
        Connect(&'static str),
        /// The connection stood, but no response came.
        Request(&'static str),
        Timeout,
        Redirect,
        /// The event-loop thread of the real client died: the real client panics here too.
        Panic(&'static str),
    }
    pub enum ReadOutcome {
        Data(usize),
        Error(std::io::ErrorKind, &'static str),
        Timeout,
        Panic(&'static str),
    }
    pub trait Transport {
        fn send(&self, method: &str, url: &str, range: Option<&str>, max_redirects: usize, timeout: Option<Duration>) -> SendOutcome;
        fn read(&self, conn: u64, buf: &mut [u8], timeout: Option<Duration>) -> ReadOutcome;
        fn close(&self, conn: u64);
    }
    static mut TRANSPORT: Option<&'static (dyn Transport + Sync)> = None;
    /// # Safety: called once, before any simulated thread exists.
    pub unsafe fn install(t: &'static (dyn Transport + Sync)) {
        TRANSPORT = Some(t);
    }
    pub(crate) fn transport() -> &'static (dyn Transport + Sync) {
        unsafe { *std::ptr::addr_of!(TRANSPORT) }.expect("simulated transport not installed")
    }
}

#[derive(Debug, Clone, PartialEq)]
#[allow(dead_code)]
enum Kind { Builder, Request, Redirect, Status(StatusCode), Body, Timeout, Connect }

pub struct Error { kind: Kind, msg: String, url: Option<Url> }
impl Error {
    fn new(kind: Kind, msg: impl Into<String>) -> Self { Error { kind, msg: msg.into(), url: None } }
    pub fn url(&self) -> Option<&Url> { self.url.as_ref() }
    pub fn url_mut(&mut self) -> Option<&mut Url> { self.url.as_mut() }
    pub fn with_url(mut self, url: Url) -> Self { self.url = Some(url); self }
    pub fn without_url(mut self) -> Self { self.url = None; self }
    pub fn is_builder(&self) -> bool { self.kind == Kind::Builder }
    pub fn is_redirect(&self) -> bool { self.kind == Kind::Redirect }
    pub fn is_status(&self) -> bool { matches!(self.kind, Kind::Status(_)) }
    pub fn is_timeout(&self) -> bool { self.kind == Kind::Timeout }
    pub fn is_request(&self) -> bool { matches!(self.kind, Kind::Request | Kind::Connect | Kind::Timeout) }
    pub fn is_connect(&self) -> bool { self.kind == Kind::Connect }
    pub fn is_body(&self) -> bool { self.kind == Kind::Body }
    pub fn is_decode(&self) -> bool { false }
    pub fn status(&self) -> Option<StatusCode> { if let Kind::Status(s) = self.kind { Some(s) } else { None } }
}
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "reqwest::Error {{ {:?}: {} }}", self.kind, self.msg) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.msg) } }
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        let k = if e.is_timeout() { std::io::ErrorKind::TimedOut } else { std::io::ErrorKind::Other };
        std::io::Error::new(k, e)
    }
}

pub trait IntoUrl { fn into_url(self) -> Result<Url>; fn as_str(&self) -> &str; }
fn parse_url(s: &str) -> Result<Url> {
    let u = Url::parse(s).map_err(|e| Error::new(Kind::Builder, format!("builder error: {e}")))?;
    // like the real crate: only URLs with a host can be requested
    if u.has_host() { Ok(u) } else { Err(Error::new(Kind::Builder, "builder error: URL scheme is not allowed")) }
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> { if self.has_host() { Ok(self) } else { Err(Error::new(Kind::Builder, "builder error: URL scheme is not allowed")) } }
    fn as_str(&self) -> &str { self.as_ref() }
}
impl<'a> IntoUrl for &'a Url { fn into_url(self) -> Result<Url> { self.clone().into_url() } fn as_str(&self) -> &str { (*self).as_ref() } }
impl<'a> IntoUrl for &'a str { fn into_url(self) -> Result<Url> { parse_url(self) } fn as_str(&self) -> &str { self } }
impl<'a> IntoUrl for &'a String { fn into_url(self) -> Result<Url> { parse_url(self) } fn as_str(&self) -> &str { String::as_str(self) } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { parse_url(&self) } fn as_str(&self) -> &str { String::as_str(self) } }
impl<'a> IntoUrl for std::borrow::Cow<'a, str> { fn into_url(self) -> Result<Url> { parse_url(&self) } fn as_str(&self) -> &str { self } }

pub mod redirect {
    #[derive(Debug, Clone)]
    pub struct Policy(pub(crate) usize);
    impl Policy {
        pub fn limited(n: usize) -> Self { Policy(n) }
        pub fn none() -> Self { Policy(0) }
    }
    impl Default for Policy { fn default() -> Self { Policy(10) } }
}

pub mod blocking {
    use super::*;
    use http::header::{HeaderMap, HeaderName, HeaderValue};
    use std::convert::TryFrom;
    use std::io::{self, Read};

    const DEFAULT_TIMEOUT: Option<Duration> = Some(Duration::from_secs(30));

    pub fn get<T: IntoUrl>(url: T) -> Result<Response> { Client::builder().build()?.get(url).send() }

    #[derive(Debug, Clone)]
    pub struct Client { timeout: Option<Duration>, connect_timeout: Option<Duration>, https_only: bool, redirects: usize, headers: HeaderMap }
    #[derive(Debug)]
    pub struct ClientBuilder { c: Client }
    impl Default for Client { fn default() -> Self { Client::new() } }
    impl Default for ClientBuilder { fn default() -> Self { ClientBuilder::new() } }
    impl Client {
        pub fn new() -> Client { ClientBuilder::new().build().expect("Client::new()") }
        pub fn builder() -> ClientBuilder { ClientBuilder::new() }
        pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
            let parsed = url.into_url();
            RequestBuilder { c: self.clone(), req: parsed.map(|u| Request { method, url: u, timeout: None, headers: HeaderMap::new() }) }
        }
        pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::GET, url) }
        pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::HEAD, url) }
        pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::POST, url) }
        pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PUT, url) }
        pub fn patch<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PATCH, url) }
        pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::DELETE, url) }
        pub fn execute(&self, req: Request) -> Result<Response> {
            let scheme = req.url.scheme();
            if scheme != "http" && scheme != "https" || (self.https_only && scheme != "https") {
                return Err(Error::new(Kind::Builder, "builder error: URL scheme is not allowed").with_url(req.url));
            }
            let timeout = req.timeout.or(self.timeout);
            let wait = match (timeout, self.connect_timeout) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) };
            let range = req.headers.get(header::RANGE).or(self.headers.get(header::RANGE)).and_then(|v| v.to_str().ok());
            match sim::transport().send(req.method.as_str(), req.url.as_str(), range, self.redirects, wait) {
                sim::SendOutcome::Response { conn, status, content_length, content_type, extra, final_url } => Ok(Response {
                    conn, timeout, content_length,
                    status: StatusCode::from_u16(status).unwrap(),
                    url: Url::parse(&final_url).unwrap_or(req.url),
                    headers: { let mut h = HeaderMap::new(); if let Some(n) = content_length { h.insert(header::CONTENT_LENGTH, HeaderValue::from(n)); } if let Some(t) = content_type.and_then(|t| HeaderValue::try_from(t).ok()) { h.insert(header::CONTENT_TYPE, t); } for (k, v) in extra { if let (Ok(k), Ok(v)) = (HeaderName::try_from(k), HeaderValue::try_from(v)) { h.append(k, v); } } h },
                }),
                sim::SendOutcome::Connect(m) => Err(Error::new(Kind::Connect, m).with_url(req.url)),
                sim::SendOutcome::Request(m) => Err(Error::new(Kind::Request, m).with_url(req.url)),
                sim::SendOutcome::Timeout => Err(Error::new(Kind::Timeout, "operation timed out").with_url(req.url)),
                sim::SendOutcome::Redirect => Err(Error::new(Kind::Redirect, "too many redirects").with_url(req.url)),
                sim::SendOutcome::Panic(m) => panic!("{}", m),
            }
        }
    }
    macro_rules! ignored { ($($name:ident : $t:ty),* $(,)?) => { $(pub fn $name(self, _v: $t) -> ClientBuilder { self })* } }
    impl ClientBuilder {
        pub fn new() -> Self { ClientBuilder { c: Client { timeout: DEFAULT_TIMEOUT, connect_timeout: None, https_only: false, redirects: 10, headers: HeaderMap::new() } } }
        pub fn build(self) -> Result<Client> { Ok(self.c) }
        pub fn timeout<T: Into<Option<Duration>>>(mut self, t: T) -> Self { self.c.timeout = t.into(); self }
        pub fn connect_timeout<T: Into<Option<Duration>>>(mut self, t: T) -> Self { self.c.connect_timeout = t.into(); self }
        pub fn pool_idle_timeout<T: Into<Option<Duration>>>(self, _t: T) -> Self { self }
        pub fn tcp_keepalive<T: Into<Option<Duration>>>(self, _t: T) -> Self { self }
        pub fn user_agent<V>(self, _v: V) -> Self { self }
        pub fn default_headers(mut self, h: HeaderMap) -> Self { self.c.headers = h; self }
        pub fn redirect(mut self, p: redirect::Policy) -> Self { self.c.redirects = p.0; self }
        pub fn https_only(mut self, v: bool) -> Self { self.c.https_only = v; self }
        pub fn no_proxy(self) -> Self { self }
        pub fn no_gzip(self) -> Self { self }
        pub fn no_brotli(self) -> Self { self }
        pub fn no_deflate(self) -> Self { self }
        pub fn use_native_tls(self) -> Self { self }
        pub fn http1_only(self) -> Self { self }
        pub fn http2_prior_knowledge(self) -> Self { self }
        pub fn http1_title_case_headers(self) -> Self { self }
        pub fn local_address<T>(self, _a: T) -> Self where T: Into<Option<std::net::IpAddr>> { self }
        pub fn resolve(self, _d: &str, _a: std::net::SocketAddr) -> Self { self }
        ignored! { referer: bool, tcp_nodelay: bool, gzip: bool, brotli: bool, deflate: bool, cookie_store: bool,
            danger_accept_invalid_certs: bool, danger_accept_invalid_hostnames: bool, pool_max_idle_per_host: usize,
            connection_verbose: bool, trust_dns: bool }
    }

    #[derive(Debug)]
    pub struct Request { method: Method, url: Url, timeout: Option<Duration>, headers: HeaderMap }
    impl Request {
        pub fn new(method: Method, url: Url) -> Self { Request { method, url, timeout: None, headers: HeaderMap::new() } }
        pub fn url(&self) -> &Url { &self.url }
        pub fn method(&self) -> &Method { &self.method }
        pub fn headers(&self) -> &HeaderMap { &self.headers }
        pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
        pub fn timeout(&self) -> Option<&Duration> { self.timeout.as_ref() }
        pub fn timeout_mut(&mut self) -> &mut Option<Duration> { &mut self.timeout }
        pub fn url_mut(&mut self) -> &mut Url { &mut self.url }
        pub fn method_mut(&mut self) -> &mut Method { &mut self.method }
        pub fn version(&self) -> Version { Version::HTTP_11 }
        pub fn try_clone(&self) -> Option<Request> { Some(Request { method: self.method.clone(), url: self.url.clone(), timeout: self.timeout, headers: self.headers.clone() }) }
    }
    #[derive(Debug)]
    pub struct RequestBuilder { c: Client, req: Result<Request> }
    impl RequestBuilder {
        pub fn timeout(mut self, t: Duration) -> Self { if let Ok(r) = &mut self.req { r.timeout = Some(t); } self }
        pub fn header<K, V>(mut self, k: K, v: V) -> Self
        where HeaderName: TryFrom<K>, HeaderValue: TryFrom<V> {
            if let (Ok(r), Ok(k), Ok(v)) = (&mut self.req, HeaderName::try_from(k), HeaderValue::try_from(v)) { r.headers.append(k, v); }
            self
        }
        pub fn headers(mut self, h: HeaderMap) -> Self { if let Ok(r) = &mut self.req { r.headers.extend(h); } self }
        pub fn version(self, _v: Version) -> Self { self }
        pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, u: U, p: Option<P>) -> Self { self.header(header::AUTHORIZATION, format!("Basic {u}:{}", p.map(|p| p.to_string()).unwrap_or_default())) }
        pub fn bearer_auth<T: fmt::Display>(self, t: T) -> Self { self.header(header::AUTHORIZATION, format!("Bearer {t}")) }
        pub fn try_clone(&self) -> Option<RequestBuilder> { let r = self.req.as_ref().ok()?.try_clone()?; Some(RequestBuilder { c: self.c.clone(), req: Ok(r) }) }
        pub fn build(self) -> Result<Request> { self.req }
        pub fn build_split(self) -> (Client, Result<Request>) { (self.c, self.req) }
        pub fn send(self) -> Result<Response> { let RequestBuilder { c, req } = self; c.execute(req?) }
    }

    pub struct Response { conn: u64, timeout: Option<Duration>, status: StatusCode, content_length: Option<u64>, url: Url, headers: HeaderMap }
    impl fmt::Debug for Response { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Response {{ status: {} }}", self.status) } }
    impl Drop for Response { fn drop(&mut self) { sim::transport().close(self.conn) } }
    impl Response {
        pub fn status(&self) -> StatusCode { self.status }
        pub fn headers(&self) -> &HeaderMap { &self.headers }
        pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
        pub fn version(&self) -> Version { Version::HTTP_11 }
        pub fn url(&self) -> &Url { &self.url }
        pub fn remote_addr(&self) -> Option<std::net::SocketAddr> { Some(([192, 0, 2, 1], 80).into()) }
        pub fn content_length(&self) -> Option<u64> { self.content_length }
        pub fn error_for_status(self) -> Result<Self> {
            if self.status.is_client_error() || self.status.is_server_error() { Err(Error::new(Kind::Status(self.status), "status").with_url(self.url.clone())) } else { Ok(self) }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            if self.status.is_client_error() || self.status.is_server_error() { Err(Error::new(Kind::Status(self.status), "status").with_url(self.url.clone())) } else { Ok(self) }
        }
        pub fn bytes(mut self) -> Result<bytes::Bytes> {
            let mut v = Vec::new();
            self.read_to_end(&mut v).map_err(|e| Error::new(if e.kind() == io::ErrorKind::TimedOut { Kind::Timeout } else { Kind::Body }, e.to_string()))?;
            Ok(v.into())
        }
        pub fn text(self) -> Result<String> { self.bytes().map(|b| String::from_utf8_lossy(&b).into_owned()) }
        pub fn text_with_charset(self, _default: &str) -> Result<String> { self.text() }
        pub fn copy_to<W: ?Sized + io::Write>(&mut self, w: &mut W) -> Result<u64> { io::copy(self, w).map_err(|e| Error::new(Kind::Body, e.to_string())) }
    }
    impl Read for Response {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            match sim::transport().read(self.conn, buf, self.timeout) {
                sim::ReadOutcome::Data(n) => Ok(n),
                sim::ReadOutcome::Error(k, m) => Err(io::Error::new(k, m)),
                sim::ReadOutcome::Timeout => Err(Error::new(Kind::Timeout, "operation timed out").into()),
                sim::ReadOutcome::Panic(m) => panic!("{}", m),
            }
        }
    }
}
