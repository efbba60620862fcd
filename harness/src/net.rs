//! A stand-in for GitHub: a proxy that terminates TLS itself and answers by a script, piece by piece
//! in a given order. Nothing leaves the loopback network.
use openssl::asn1::Asn1Time;
use openssl::bn::BigNum;
use openssl::ec::{EcGroup, EcKey};
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::{PKey, Private};
use openssl::ssl::{SslAcceptor, SslMethod};
use openssl::x509::extension::{BasicConstraints, SubjectAlternativeName};
use openssl::x509::{X509NameBuilder, X509};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    /// the file
    Full(Vec<u8>),
    /// the file, in chunks
    Chunked(Vec<u8>),
    /// a redirection to another path on another host
    Redirect(String),
    /// a redirection with this status to this location
    Moved(u16, String),
    /// an error with a body
    Status(u16, Vec<u8>),
    /// announces all bytes, but sends only some
    Cut(Vec<u8>, usize),
    /// chunked, without its end
    CutChunks(Vec<u8>, usize),
    /// ends inside the header
    CutHead,
    /// closes without an answer
    Close,
    /// something else than HTTP
    Garbage,
    /// refused before TLS
    Refused,
    /// ends during the TLS handshake
    NoTls,
}
impl Reply {
    pub fn complete(&self) -> bool { matches!(self, Reply::Full(_) | Reply::Chunked(_) | Reply::Redirect(_) | Reply::Moved(..)) }
    /// What is sent, cut into pieces.
    fn pieces(&self, n: usize) -> Vec<Vec<u8>> {
        let head = |s: &str, len: usize| format!("HTTP/1.1 {s}\r\nContent-Length: {len}\r\nConnection: close\r\n\r\n").into_bytes();
        let chunked = |b: &[u8]| {
            let mut v = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n".to_vec();
            for c in b.chunks(1000) { v.extend(format!("{:x}\r\n", c.len()).bytes()); v.extend(c); v.extend(b"\r\n") }
            v
        };
        let all = match self {
            Reply::Full(b) => [head("200 OK", b.len()), b.clone()].concat(),
            Reply::Chunked(b) => [chunked(b), b"0\r\n\r\n".to_vec()].concat(),
            Reply::Moved(status, to) => format!("HTTP/1.1 {status} Moved\r\nLocation: {to}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").into_bytes(),
            Reply::Redirect(to) => format!("HTTP/1.1 302 Found\r\nLocation: https://objects.githubusercontent.com{to}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").into_bytes(),
            Reply::Status(s, b) => [head(&format!("{s} X"), b.len()), b.clone()].concat(),
            Reply::Cut(b, k) => [head("200 OK", b.len()), b[..*k].to_vec()].concat(),
            Reply::CutChunks(b, k) => chunked(&b[..*k]),
            Reply::CutHead => b"HTTP/1.1 200 OK\r\nContent-Le".to_vec(),
            Reply::Garbage => b"garbage\r\n\r\n".to_vec(),
            _ => vec![],
        };
        if n <= 1 { return vec![all] }
        let first = all.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4).unwrap_or(all.len() / 2);
        let mut at: Vec<usize> = vec![first];
        for i in 1..n - 1 { at.push(first + (all.len() - first) * i / (n - 1)) }
        at.push(all.len());
        let mut from = 0;
        at.into_iter().map(|to| { let p = all[from..to].to_vec(); from = to; p }).collect()
    }
}

#[derive(Default)]
struct State {
    replies: HashMap<String, Reply>,
    pieces: usize,
    /// (path, piece) in the order in which they are to be sent
    order: Vec<(String, usize)>,
    at: usize,
    moved: Option<Instant>,
    requests: Vec<String>,
    late: u64,
    round: u64,
}

pub struct GitHub { pub port: u16, state: Arc<(Mutex<State>, Condvar)>, pub cert: PathBuf }

fn certificate() -> (PKey<Private>, X509) {
    let group = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap();
    let key = PKey::from_ec_key(EcKey::generate(&group).unwrap()).unwrap();
    let mut name = X509NameBuilder::new().unwrap();
    name.append_entry_by_text("CN", "check").unwrap();
    let name = name.build();
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    b.set_serial_number(&BigNum::from_u32(1).unwrap().to_asn1_integer().unwrap()).unwrap();
    b.set_subject_name(&name).unwrap();
    b.set_issuer_name(&name).unwrap();
    b.set_pubkey(&key).unwrap();
    b.set_not_before(&Asn1Time::from_unix(0).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::from_unix(4_000_000_000).unwrap()).unwrap();
    b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
    let san = SubjectAlternativeName::new().dns("github.com").dns("*.github.com").dns("*.githubusercontent.com").build(&b.x509v3_context(None, None)).unwrap();
    b.append_extension(san).unwrap();
    b.sign(&key, MessageDigest::sha256()).unwrap();
    (key, b.build())
}

fn decoded(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match std::str::from_utf8(b.get(i + 1..i + 3).unwrap_or(b"")).ok().and_then(|h| u8::from_str_radix(h, 16).ok()) {
            Some(x) if b[i] == b'%' => { out.push(x); i += 3 }
            _ => { out.push(b[i]); i += 1 }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn head(s: &mut dyn Read) -> Option<String> {
    let mut v = vec![];
    let mut c = [0];
    while !v.ends_with(b"\r\n\r\n") {
        if s.read(&mut c).ok()? == 0 || v.len() > 10_000 { return None }
        v.push(c[0]);
    }
    Some(String::from_utf8_lossy(&v).into_owned())
}

impl GitHub {
    pub fn start(dir: &Path) -> GitHub {
        let (key, cert) = certificate();
        let file = dir.join("ca.pem");
        std::fs::write(&file, cert.to_pem().unwrap()).unwrap();
        let mut b = SslAcceptor::mozilla_intermediate_v5(SslMethod::tls()).unwrap();
        b.set_private_key(&key).unwrap();
        b.set_certificate(&cert).unwrap();
        let acceptor = Arc::new(b.build());
        let listener = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = listener.local_addr().unwrap().port();
        let state: Arc<(Mutex<State>, Condvar)> = Default::default();
        let shared = state.clone();
        std::thread::spawn(move || for c in listener.incoming().flatten() {
            let (a, s) = (acceptor.clone(), shared.clone());
            std::thread::spawn(move || { let _ = serve(c, &a, &s); });
        });
        GitHub { port, state, cert: file }
    }
    /// From now on, answers like this; in one piece each, in any order.
    pub fn script(&self, replies: HashMap<String, Reply>) { self.schedule(replies, 1, vec![]) }
    pub fn schedule(&self, replies: HashMap<String, Reply>, pieces: usize, order: Vec<(String, usize)>) {
        let mut s = self.state.0.lock().unwrap();
        *s = State { replies, pieces, order, round: s.round + 1, ..Default::default() };
        self.state.1.notify_all();
    }
    /// The paths requested since the script was set, sorted.
    pub fn requests(&self) -> Vec<String> { let mut v = self.state.0.lock().unwrap().requests.clone(); v.sort(); v }
    /// How often the order could not be kept, because the next piece's request did not come.
    pub fn late(&self) -> u64 { self.state.0.lock().unwrap().late }
    pub fn env(&self) -> Vec<(&'static str, String)> {
        let proxy = format!("http://127.0.0.1:{}", self.port);
        vec![("HTTPS_PROXY", proxy.clone()), ("https_proxy", proxy), ("SSL_CERT_FILE", self.cert.display().to_string()), ("SSL_CERT_DIR", "/nonexistent".into()), ("NO_PROXY", String::new()), ("no_proxy", String::new())]
    }
}

fn serve(mut c: TcpStream, acceptor: &SslAcceptor, shared: &(Mutex<State>, Condvar)) -> Option<()> {
    c.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
    c.set_nodelay(true).ok()?;
    let connect = head(&mut c)?;
    let host = connect.strip_prefix("CONNECT ")?.split(':').next()?.to_string();
    let refuse = {
        let s = shared.0.lock().unwrap();
        // these two are decided before the path is known, so they apply to every request
        s.replies.values().find(|r| matches!(r, Reply::Refused | Reply::NoTls)).cloned()
    };
    if refuse == Some(Reply::Refused) { let _ = c.write_all(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n"); return None }
    c.write_all(b"HTTP/1.1 200 OK\r\n\r\n").ok()?;
    if refuse == Some(Reply::NoTls) { let _ = c.shutdown(Shutdown::Both); return None }
    let mut tls = acceptor.accept(c).ok()?;
    let request = head(&mut tls)?;
    let target = request.strip_prefix("GET ")?.split(' ').next()?;
    let target = decoded(target);
    let name = if host == "github.com" { target } else { format!("//{host}{target}") };
    let (reply, pieces, round) = {
        let mut s = shared.0.lock().unwrap();
        s.requests.push(name.clone());
        shared.1.notify_all();
        (s.replies.get(&name).or(s.replies.get("*")).cloned().unwrap_or(Reply::Status(404, b"Not Found".to_vec())), s.pieces.max(1), s.round)
    };
    for (i, p) in reply.pieces(pieces).iter().enumerate() {
        let mut s = shared.0.lock().unwrap();
        let begin = Instant::now();
        loop {
            if s.round != round || s.order.is_empty() { break }
            // the place of this piece in the order
            let Some(k) = s.order.iter().position(|(n, j)| *n == name && *j == i) else { break };
            if k <= s.at { s.at = s.at.max(k + 1); s.moved = Some(Instant::now()); break }
            let wait = Duration::from_millis(300);
            let since = s.moved.unwrap_or(begin).max(begin);
            if since.elapsed() > wait { s.late += 1; s.at = k + 1; s.moved = Some(Instant::now()); break }
            s = shared.1.wait_timeout(s, Duration::from_millis(20)).unwrap().0;
        }
        shared.1.notify_all();
        // sent while the lock is held, so that pieces of different answers are not sent at once
        if !s.order.is_empty() && s.round == round { tls.write_all(p).ok()?; tls.flush().ok()?; std::thread::sleep(Duration::from_millis(1)); drop(s) } else { drop(s); tls.write_all(p).ok()?; }
    }
    if reply.complete() || matches!(reply, Reply::Status(..)) { let _ = tls.shutdown(); }
    let _ = tls.get_ref().shutdown(Shutdown::Both);
    Some(())
}
