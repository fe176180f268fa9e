//! C25: the bundled HTTP client, against a scripted server on the loopback interface.
use crate::ctx::Ctx;
use http::{Request, Response};
use openid4vp::core::util::{AsyncHttpClient, ReqwestClient};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What to answer one request with: these bytes, then keep the connection or close it.
#[derive(Clone)]
struct Script {
    bytes: Vec<u8>,
    /// Send the bytes in pieces of this size, if not 0.
    piece: usize,
    keep: bool,
    /// Close before reading the request's body (and answer nothing).
    deaf: bool,
    /// Wait before answering, and after each piece.
    delay: Duration,
    pause: Duration,
}

impl Script {
    fn new(bytes: impl Into<Vec<u8>>, keep: bool) -> Script {
        Script { bytes: bytes.into(), piece: 0, keep, deaf: false, delay: Duration::ZERO, pause: Duration::ZERO }
    }
}

#[derive(Clone, Debug, Default)]
struct Seen {
    method: String,
    target: String,
    headers: BTreeMap<String, Vec<Vec<u8>>>,
    body: Vec<u8>,
}

#[derive(Default)]
struct State {
    script: Vec<Script>,
    next: usize,
    seen: Vec<Seen>,
    connections: usize,
}

struct Server {
    port: u16,
    state: Arc<Mutex<State>>,
}

fn read_request(s: &mut TcpStream, deaf: bool) -> Option<Seen> {
    let mut buf = vec![];
    let mut chunk = [0u8; 65536];
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        match s.read(&mut chunk) {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend(&chunk[..n]),
        }
    };
    let head = buf[..end].to_vec();
    let mut body = buf[end + 4..].to_vec();
    let mut lines = head.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next().unwrap()).to_string();
    let mut parts = first.splitn(3, ' ');
    let mut seen = Seen { method: parts.next().unwrap_or("").into(), target: parts.next().unwrap_or("").into(), ..Default::default() };
    for l in lines {
        let i = l.iter().position(|b| *b == b':').unwrap_or(l.len());
        let name = String::from_utf8_lossy(&l[..i]).to_lowercase();
        let value = l.get(i + 1..).unwrap_or(&[]).to_vec();
        let value = value.strip_prefix(b" ").map(|v| v.to_vec()).unwrap_or(value);
        seen.headers.entry(name).or_default().push(value);
    }
    if deaf {
        return Some(seen);
    }
    let len: Option<usize> = seen.headers.get("content-length").and_then(|v| String::from_utf8_lossy(&v[0]).parse().ok());
    if let Some(len) = len {
        while body.len() < len {
            match s.read(&mut chunk) {
                Ok(0) | Err(_) => return None,
                Ok(n) => body.extend(&chunk[..n]),
            }
        }
    } else if seen.headers.contains_key("transfer-encoding") {
        // Not used by a client that knows its body; read what there is.
        body.extend(b"<transfer-encoding>");
    }
    seen.body = body;
    Some(seen)
}

fn serve(mut s: TcpStream, state: &Arc<Mutex<State>>) {
    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
    let _ = s.set_nodelay(true);
    loop {
        let (script, n) = {
            let st = state.lock().unwrap();
            (st.script.get(st.next).cloned(), st.next)
        };
        let deaf = script.as_ref().is_some_and(|s| s.deaf);
        let Some(seen) = read_request(&mut s, deaf) else { return };
        let script = {
            let mut st = state.lock().unwrap();
            // The script may have been replaced while this connection was idle.
            let script = if st.next == n && script.is_some() { script } else { st.script.get(st.next).cloned() };
            st.next += 1;
            st.seen.push(seen);
            script
        };
        let script = script.unwrap_or(Script::new("HTTP/1.1 599 Unscripted\r\ncontent-length: 0\r\n\r\n", false));
        std::thread::sleep(script.delay);
        if script.piece == 0 {
            let _ = s.write_all(&script.bytes);
        } else {
            for p in script.bytes.chunks(script.piece) {
                let _ = s.write_all(p);
                let _ = s.flush();
                std::thread::sleep(script.pause);
            }
        }
        if !script.keep {
            let _ = s.shutdown(Shutdown::Write);
            // Let the client read what was sent before the connection goes.
            let mut rest = [0u8; 1024];
            let _ = s.set_read_timeout(Some(Duration::from_millis(if deaf { 1 } else { 2000 })));
            while matches!(s.read(&mut rest), Ok(n) if n > 0) {}
            return;
        }
    }
}

impl Server {
    fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("a loopback port");
        let port = l.local_addr().unwrap().port();
        let state: Arc<Mutex<State>> = Default::default();
        let st = state.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                st.lock().unwrap().connections += 1;
                let st = st.clone();
                std::thread::spawn(move || serve(s, &st));
            }
        });
        Server { port, state }
    }
    fn script(&self, script: Vec<Script>) {
        let mut s = self.state.lock().unwrap();
        s.script = script;
        s.next = 0;
        s.seen.clear();
        s.connections = 0;
    }
    fn seen(&self) -> Vec<Seen> {
        self.state.lock().unwrap().seen.clone()
    }
}

#[derive(Clone)]
struct Req {
    method: &'static str,
    target: &'static str,
    headers: Vec<(&'static str, Vec<u8>)>,
    body: Vec<u8>,
}

impl Req {
    fn plain() -> Req {
        Req { method: "GET", target: "/r/1", headers: vec![("prefer", b"OID4VP-1.0.0".to_vec())], body: vec![] }
    }
    fn label(&self) -> String {
        let hs: Vec<String> = self.headers.iter().map(|(k, v)| format!("{k}={:?}", String::from_utf8_lossy(v))).collect();
        format!("{} {} [{}] body×{}", self.method, self.target, hs.join(","), self.body.len())
    }
    fn build(&self, port: u16) -> Request<Vec<u8>> {
        let mut b = Request::builder().method(self.method).uri(format!("http://127.0.0.1:{port}{}", self.target));
        for (k, v) in &self.headers {
            b = b.header(*k, http::HeaderValue::from_bytes(v).unwrap());
        }
        b.body(self.body.clone()).unwrap()
    }
    fn check(&self, s: &Seen, port: u16) -> Result<(), String> {
        if s.method != self.method {
            return Err(format!("the server got the method {}", s.method));
        }
        if s.target != self.target {
            return Err(format!("the server got the path {}", s.target));
        }
        if s.body != self.body {
            return Err(format!("the server got a body of {} bytes: {:?}", s.body.len(), String::from_utf8_lossy(&s.body[..s.body.len().min(80)])));
        }
        let mut want: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        for (k, v) in &self.headers {
            want.entry(k.to_string()).or_default().push(v.clone());
        }
        for (k, v) in &want {
            if s.headers.get(k) != Some(v) {
                return Err(format!("the server got {k}: {:?}", s.headers.get(k)));
            }
        }
        // What HTTP itself needs, and that anything is taken.
        for (k, v) in &s.headers {
            if !want.contains_key(k) && !["host", "content-length", "transfer-encoding", "connection"].contains(&k.as_str()) && !(k == "accept" && *v == [b"*/*".to_vec()]) {
                return Err(format!("the server got {k}: {v:?}, which was not given"));
            }
        }
        if !want.contains_key("host") && s.headers.get("host") != Some(&vec![format!("127.0.0.1:{port}").into_bytes()]) {
            return Err(format!("the server got host: {:?}", s.headers.get("host")));
        }
        Ok(())
    }
}

/// A response the server sends.
#[derive(Clone)]
struct Ans {
    status: u16,
    headers: Vec<(&'static str, Vec<u8>)>,
    body: Vec<u8>,
    chunked: bool,
}

impl Ans {
    fn ok(body: &[u8]) -> Ans {
        Ans { status: 200, headers: vec![("content-type", b"application/oauth-authz-req+jwt".to_vec())], body: body.to_vec(), chunked: false }
    }
    fn bodiless(&self, method: &str) -> bool {
        method == "HEAD" || self.status == 204 || self.status == 304
    }
    fn headers(&self, keep: bool) -> Vec<(String, Vec<u8>)> {
        let mut h: Vec<(String, Vec<u8>)> = self.headers.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        if self.chunked {
            h.push(("transfer-encoding".into(), b"chunked".to_vec()));
        } else if self.status != 204 {
            h.push(("content-length".into(), self.body.len().to_string().into_bytes()));
        }
        if !keep {
            h.push(("connection".into(), b"close".to_vec()));
        }
        h
    }
    fn bytes(&self, method: &str, keep: bool) -> Vec<u8> {
        let mut o = format!("HTTP/1.1 {} Reason\r\n", self.status).into_bytes();
        for (k, v) in self.headers(keep) {
            o.extend(k.as_bytes());
            o.extend(b": ");
            o.extend(v);
            o.extend(b"\r\n");
        }
        o.extend(b"\r\n");
        if !self.bodiless(method) {
            if self.chunked {
                for c in self.body.chunks(7.max(self.body.len() / 3)) {
                    o.extend(format!("{:x}\r\n", c.len()).bytes());
                    o.extend(c);
                    o.extend(b"\r\n");
                }
                o.extend(b"0\r\n\r\n");
            } else {
                o.extend(&self.body);
            }
        }
        o
    }
    fn check(&self, method: &str, keep: bool, r: &Response<Vec<u8>>) -> Result<(), String> {
        if r.status().as_u16() != self.status {
            return Err(format!("returned the status {}", r.status()));
        }
        let mut want: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        for (k, v) in self.headers(keep) {
            want.entry(k.to_lowercase()).or_default().push(v);
        }
        let mut got: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        for (k, v) in r.headers() {
            got.entry(k.to_string()).or_default().push(v.as_bytes().to_vec());
        }
        if got != want {
            let show = |m: &BTreeMap<String, Vec<Vec<u8>>>| format!("{:?}", m.iter().map(|(k, v)| (k.clone(), v.iter().map(|v| String::from_utf8_lossy(v).to_string()).collect::<Vec<_>>())).collect::<Vec<_>>());
            return Err(format!("returned the headers {}, sent were {}", show(&got), show(&want)));
        }
        let want = if self.bodiless(method) { vec![] } else { self.body.clone() };
        if *r.body() != want {
            return Err(format!("returned a body of {} bytes, sent were {}", r.body().len(), want.len()));
        }
        Ok(())
    }
    fn label(&self) -> String {
        format!("{} {:?} body×{}{}", self.status, self.headers.iter().map(|h| h.0).collect::<Vec<_>>(), self.body.len(), if self.chunked { " chunked" } else { "" })
    }
}

pub fn c25(c: &mut Ctx) {
    c.rule = "Every combination of a list of requests (method, path, headers, body) with a plain answer and of a list of answers (status, headers, body, framing) to a plain request, over a loopback connection; every cut of an answer after each of its bytes; every sequence of up to three requests over one client with answers that keep, close or cut the connection; refused connections, slow and garbled answers. Non-trivial: a distinct exchange.".into();
    c.assumptions = vec![
        "plain HTTP over the loopback interface; TLS is not exercised".into(),
        "headers HTTP itself needs (host, content-length and the like) and 'accept: */*' may be added; answers with a Location to follow are excluded".into(),
        "answers state their length (content-length or chunks): a cut is not visible otherwise".into(),
    ];
    c.fault = true;
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("a runtime");
    let client = ReqwestClient::new().expect("a client");
    let server = Server::start();
    let port = server.port;
    let send = |client: &ReqwestClient, r: &Req| -> Result<Result<Response<Vec<u8>>, String>, String> {
        rt.block_on(async {
            match tokio::time::timeout(Duration::from_secs(20), client.execute(r.build(port))).await {
                Ok(Ok(r)) => Ok(Ok(r)),
                Ok(Err(e)) => Ok(Err(format!("{e:#}"))),
                Err(_) => Err("no answer and no error within 20 s".to_string()),
            }
        })
    };
    let exchange = |r: &Req, a: &Ans, piece: usize| -> Result<String, String> {
        let mut s = Script::new(a.bytes(r.method, false), false);
        s.piece = piece;
        server.script(vec![s]);
        let got = send(&client, r)?.map_err(|e| format!("failed: {e}"))?;
        a.check(r.method, false, &got)?;
        let seen = server.seen();
        if seen.len() != 1 {
            return Err(format!("the server got {} requests", seen.len()));
        }
        r.check(&seen[0], port)?;
        Ok(format!("{}xx relayed", a.status / 100))
    };
    // Requests.
    let all_bytes: Vec<u8> = (0..=255).collect();
    let bodies: Vec<Vec<u8>> = vec![vec![], b"a=b&c=%20".to_vec(), b"\r\n\r\n0\r\n\r\nGET / HTTP/1.1\r\n\r\n".to_vec(), all_bytes.clone(), vec![0u8; 1], vec![b'x'; 200_000]];
    let targets = ["/", "/r/1", "/a/b/?x=y&z=%20+&z=2", "/?", "/%C3%A9/%2F..%2f", "/a?b=c/?d=https://e/", "//double//", "/~!$&'()*+,;=:@"];
    let headers: Vec<Vec<(&'static str, Vec<u8>)>> = vec![
        vec![],
        vec![("prefer", b"OID4VP-1.0.0".to_vec())],
        vec![("content-type", b"application/x-www-form-urlencoded".to_vec()), ("accept", b"application/oauth-authz-req+jwt".to_vec())],
        vec![("x-twice", b"1".to_vec()), ("x-twice", b"2".to_vec()), ("x-empty", b"".to_vec())],
        vec![("x-odd", b"caf\xc3\xa9 \"quoted\"\ttab".to_vec()), ("user-agent", b"w".to_vec()), ("authorization", b"Bearer x".to_vec()), ("cookie", b"a=b; c=d".to_vec())],
    ];
    for method in ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD"] {
        for t in targets {
            for h in &headers {
                for b in &bodies {
                    if c.quick() && b.len() > 1000 && (t != "/r/1" || h.len() != 1) {
                        continue;
                    }
                    let r = Req { method, target: t, headers: h.clone(), body: b.clone() };
                    c.case(format!("request {}", r.label()), || exchange(&r, &Ans::ok(b"fine"), 0));
                }
            }
        }
    }
    // Answers.
    let statuses = [200u16, 201, 202, 203, 204, 206, 299, 300, 302, 304, 400, 401, 403, 404, 405, 410, 418, 429, 451, 500, 501, 502, 503, 504, 599];
    let answer_headers: Vec<Vec<(&'static str, Vec<u8>)>> = vec![
        vec![],
        vec![("content-type", b"application/oauth-authz-req+jwt".to_vec()), ("cache-control", b"no-store".to_vec())],
        vec![("set-cookie", b"a=1; Path=/".to_vec()), ("set-cookie", b"b=2".to_vec()), ("X-Mixed-Case", b"V".to_vec()), ("x-empty", b"".to_vec())],
        vec![("content-encoding", b"gzip".to_vec()), ("x-odd", b"caf\xe9 \"q\"".to_vec())],
        vec![("retry-after", b"0".to_vec()), ("connection", b"keep-alive".to_vec()), ("alt-svc", b"h3=\":1\"".to_vec())],
        vec![("etag", b"\"1\"".to_vec()), ("cache-control", b"public, max-age=3600".to_vec()), ("age", b"0".to_vec()), ("vary", b"*".to_vec()), ("expires", b"Thu, 01 Jan 2099 00:00:00 GMT".to_vec())],
        vec![("www-authenticate", b"Basic realm=\"x\"".to_vec()), ("proxy-authenticate", b"Basic".to_vec()), ("refresh", b"0; url=/elsewhere".to_vec()), ("link", b"</elsewhere>; rel=next".to_vec()), ("content-location", b"/elsewhere".to_vec())],
        vec![("content-type", b"text/html; charset=utf-16".to_vec()), ("content-language", b"de".to_vec()), ("warning", b"110 - \"stale\"".to_vec()), ("content-range", b"bytes 0-1/10".to_vec()), ("accept-ranges", b"bytes".to_vec())],
    ];
    let answer_bodies: Vec<Vec<u8>> = vec![vec![], b"eyJ.a.b".to_vec(), b"{\"redirect_uri\":\"https://v.example/\"}".to_vec(), all_bytes, b"\xff\xfe".to_vec(), vec![b'y'; 300_000]];
    for status in statuses {
        for h in &answer_headers {
            for b in &answer_bodies {
                for chunked in [false, true] {
                    if chunked && (b.is_empty() || status == 204 || status == 304) {
                        continue;
                    }
                    if c.quick() && b.len() > 1000 && status != 200 && status != 500 {
                        continue;
                    }
                    let a = Ans { status, headers: h.clone(), body: b.clone(), chunked };
                    for method in ["GET", "POST", "HEAD"] {
                        if method == "HEAD" && chunked {
                            continue;
                        }
                        let mut r = Req::plain();
                        r.method = method;
                        if method == "POST" {
                            r.body = b"response=x".to_vec();
                        }
                        let pieces: &[usize] = if b.len() > 1000 { &[0] } else { c.pick(&[0, 5], &[0, 1, 5, 64]) };
                        for piece in pieces {
                            c.case(format!("answer {} to {method} in pieces of {piece}", a.label()), || exchange(&r, &a, *piece));
                        }
                    }
                }
            }
        }
    }
    // Large bodies, many headers, long headers and paths.
    for n in [8_191usize, 8_192, 65_535, 65_536, 65_537, 1_048_576, 1_048_577, c.pick(4_500_000, 40_000_000)] {
        let body: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        for chunked in [false, true] {
            for status in [200u16, 400] {
                let a = Ans { status, body: body.clone(), chunked, headers: vec![] };
                c.case(format!("an answer {status} of {n} bytes, chunked {chunked}"), || exchange(&Req::plain(), &a, 0));
            }
        }
        for method in ["POST", "PUT", "GET"] {
            let r = Req { method, body: body.clone(), ..Req::plain() };
            c.case(format!("a {method} of {n} bytes"), || exchange(&r, &Ans::ok(b"fine"), 0));
        }
    }
    for n in [10usize, 40, 90] {
        let names: Vec<&'static str> = (0..n).map(|i| &*Box::leak(format!("x-h{i}").into_boxed_str())).collect();
        let hs: Vec<(&'static str, Vec<u8>)> = names.iter().enumerate().map(|(i, k)| (*k, format!("v{i}").into_bytes())).collect();
        c.case(format!("{n} headers sent"), || exchange(&Req { headers: hs.clone(), ..Req::plain() }, &Ans::ok(b"fine"), 0));
        c.case(format!("{n} headers answered"), || exchange(&Req::plain(), &Ans { headers: hs.clone(), ..Ans::ok(b"fine") }, 0));
        let same: Vec<(&'static str, Vec<u8>)> = (0..n).map(|i| ("x-same", format!("v{i}").into_bytes())).collect();
        c.case(format!("{n} headers of one name sent"), || exchange(&Req { headers: same.clone(), ..Req::plain() }, &Ans::ok(b"fine"), 0));
        c.case(format!("{n} headers of one name answered"), || exchange(&Req::plain(), &Ans { headers: same.clone(), ..Ans::ok(b"fine") }, 0));
    }
    for n in [255usize, 256, 1024, 5000, 30_000] {
        c.case(format!("headers of {n} bytes"), || {
            let h = vec![("x-long", vec![b'l'; n])];
            exchange(&Req { headers: h.clone(), ..Req::plain() }, &Ans { headers: h, ..Ans::ok(b"fine") }, 0)
        });
        let target: &'static str = Box::leak(format!("/{}?{}", "p".repeat(n), "q=%20&".repeat(n / 6)).into_boxed_str());
        c.case(format!("a path of {} bytes", target.len()), || exchange(&Req { target, ..Req::plain() }, &Ans::ok(b"fine"), 0));
    }
    // Cuts.
    let fails = |r: &Req, s: Script| -> Result<String, String> {
        server.script(vec![s]);
        match send(&client, r)? {
            Ok(a) => Err(format!("reported as the response {} with {} bytes", a.status(), a.body().len())),
            Err(_) => {
                let n = server.seen().len();
                if n > 1 {
                    return Err(format!("the request was sent {n} times"));
                }
                Ok("an error".into())
            }
        }
    };
    for (n, a) in [
        Ans::ok(b"eyJ.a.b"),
        Ans { chunked: true, ..Ans::ok(b"eyJhbGciOiJFUzI1NiJ9.a.b") },
        Ans { status: 500, ..Ans::ok(b"no") },
        Ans { status: 404, chunked: true, ..Ans::ok(b"{}") },
        Ans::ok(&[b'z'; 40]),
    ].iter().enumerate() {
        for method in ["GET", "POST"] {
            let mut r = Req::plain();
            r.method = method;
            if method == "POST" {
                r.body = b"response=x".to_vec();
            }
            let bytes = a.bytes(method, true);
            for k in 0..bytes.len() {
                c.case(format!("answer#{n} to {method} cut after {k} of {} bytes", bytes.len()), || fails(&r, Script::new(&bytes[..k], false)));
            }
        }
    }
    let big = Ans::ok(&vec![b'z'; 100_000]).bytes("GET", true);
    for k in [0usize, 100, 5000, 50_000, 99_999, big.len() - 1] {
        c.case(format!("long answer cut after {k} bytes"), || fails(&Req::plain(), Script::new(&big[..k], false)));
    }
    // Slow answers: before the first byte, and in the middle.
    for ms in c.pick(vec![700u64, 3000], vec![700, 3000, 12_000]) {
        for a in [Ans::ok(b"eyJ.a.b"), Ans { status: 503, chunked: true, ..Ans::ok(b"later") }] {
            c.case(format!("answer {} after {ms} ms", a.label()), || {
                let mut s = Script::new(a.bytes("GET", false), false);
                s.delay = Duration::from_millis(ms);
                server.script(vec![s]);
                let r = Req::plain();
                let got = send(&client, &r)?.map_err(|e| format!("failed: {e}"))?;
                a.check("GET", false, &got)?;
                if server.seen().len() != 1 {
                    return Err(format!("the server got {} requests", server.seen().len()));
                }
                r.check(&server.seen()[0], port)?;
                Ok("a slow answer".into())
            });
            c.case(format!("answer {} in pieces, each after {} ms", a.label(), ms / 10), || {
                let mut s = Script::new(a.bytes("GET", false), false);
                s.piece = s.bytes.len() / 9;
                s.pause = Duration::from_millis(ms / 10);
                server.script(vec![s]);
                let got = send(&client, &Req::plain())?.map_err(|e| format!("failed: {e}"))?;
                a.check("GET", false, &got)?;
                Ok("a slow answer".into())
            });
        }
    }
    // Garbled answers.
    for g in [
        "garbage\r\n\r\n",
        "HTTP/1.1\r\n\r\n",
        "HTTP/1.1 2x0 OK\r\n\r\n",
        "HTTP/1.1 20 OK\r\n\r\n",
        "HTTP/3.7 200 OK\r\n\r\n",
        "HTTP/1.1 200 OK\r\ncontent-length: x\r\n\r\nabc",
        "HTTP/1.1 200 OK\r\ncontent-length: 3\r\ncontent-length: 4\r\n\r\nabcd",
        "HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\nzz\r\nabc\r\n0\r\n\r\n",
        "HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n3\r\nabcd\r\n0\r\n\r\n",
        "HTTP/1.1 200 OK\r\nno colon here\r\ncontent-length: 0\r\n\r\n",
        "HTTP/1.1 200 OK\r\nbad name: x\r\ncontent-length: 0\r\n\r\n",
        "HTTP/1.1 200 OK\r\nx: a\u{0}b\r\ncontent-length: 0\r\n\r\n",
        "\u{0}\u{1}\u{2}\u{3}",
        "{\"redirect_uri\":\"https://v.example/\"}",
        "\u{16}\u{3}\u{1}",
    ] {
        c.case(format!("garbled {g:?}"), || fails(&Req::plain(), Script::new(g, false)));
    }
    // No server, other trouble before an answer.
    c.case("connection refused", || {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let dead = l.local_addr().unwrap().port();
        drop(l);
        match rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), client.execute(Req::plain().build(dead))).await }) {
            Ok(Err(_)) => Ok("an error".into()),
            Ok(Ok(r)) => Err(format!("reported as the response {}", r.status())),
            Err(_) => Err("hangs".into()),
        }
    });
    for n in [10usize, 100_000, 3_000_000] {
        c.case(format!("closed while a body of {n} bytes is sent"), || {
            let mut r = Req::plain();
            r.method = "POST";
            r.body = vec![b'x'; n];
            let mut s = Script::new("", false);
            s.deaf = true;
            fails(&r, s)
        });
    }
    for uri in ["/relative", "ftp://127.0.0.1/", "did:x:y"] {
        c.case(format!("not an HTTP URL: {uri}"), || {
            let Ok(req) = Request::builder().uri(uri).body(vec![]) else { return Ok("no URI".into()) };
            match rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), client.execute(req)).await }) {
                Ok(Err(_)) => Ok("an error".into()),
                Ok(Ok(r)) => Err(format!("reported as the response {}", r.status())),
                Err(_) => Err("hangs".into()),
            }
        });
    }
    // Sequences over one client, which may reuse its connections.
    let kinds = ["keep", "keep chunked", "close", "cut", "error status kept", "to be kept in a cache", "with a cookie", "try again"];
    let script = |k: &str, n: usize| -> (Script, Option<Ans>, bool) {
        let body = format!("answer {n}").into_bytes();
        match k {
            "keep" => { let a = Ans::ok(&body); (Script::new(a.bytes("GET", true), true), Some(a), true) }
            "keep chunked" => { let a = Ans { chunked: true, ..Ans::ok(&body) }; (Script::new(a.bytes("GET", true), true), Some(a), true) }
            "close" => { let a = Ans::ok(&body); (Script::new(a.bytes("GET", false), false), Some(a), false) }
            "to be kept in a cache" => { let a = Ans { headers: vec![("cache-control", b"public, max-age=3600".to_vec()), ("etag", b"\"1\"".to_vec()), ("last-modified", b"Thu, 01 Jan 2015 00:00:00 GMT".to_vec())], ..Ans::ok(&body) }; (Script::new(a.bytes("GET", true), true), Some(a), true) }
            "with a cookie" => { let a = Ans { headers: vec![("set-cookie", b"a=1; Path=/".to_vec())], ..Ans::ok(&body) }; (Script::new(a.bytes("GET", true), true), Some(a), true) }
            "try again" => { let a = Ans { status: 503, headers: vec![("retry-after", b"0".to_vec())], ..Ans::ok(&body) }; (Script::new(a.bytes("GET", true), true), Some(a), true) }
            "error status kept" => { let a = Ans { status: 503, ..Ans::ok(&body) }; (Script::new(a.bytes("GET", true), true), Some(a), true) }
            _ => { let b = Ans::ok(&body).bytes("GET", true); (Script::new(&b[..b.len() - 3], false), None, false) }
        }
    };
    let mut seqs: Vec<Vec<&str>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..c.pick(3, 4) {
        last = last.iter().flat_map(|l| kinds.iter().map(|k| { let mut l = l.clone(); l.push(*k); l })).collect();
        seqs.extend(last.iter().cloned());
    }
    // Long ones: every pair of kinds in turn, many times.
    for a in kinds {
        for b in kinds {
            seqs.push([a, b].repeat(c.pick(15, 60)));
        }
    }
    for seq in &seqs[1..] {
        c.case(format!("sequence {seq:?}"), || {
            let client = client.clone();
            let scripts: Vec<_> = seq.iter().enumerate().map(|(n, k)| script(k, n)).collect();
            server.script(scripts.iter().map(|s| s.0.clone()).collect());
            for (n, (_, want, keep)) in scripts.iter().enumerate() {
                let mut r = Req::plain();
                if n % 2 == 1 {
                    r.method = "POST";
                    r.body = format!("body {n}").into_bytes();
                    r.target = "/submit";
                }
                let got = send(&client, &r)?;
                let seen = server.seen();
                if seen.len() != n + 1 {
                    return Err(format!("after {} requests the server got {}", n + 1, seen.len()));
                }
                r.check(&seen[n], port)?;
                match (got, want) {
                    (Ok(g), Some(w)) => w.check("GET", *keep, &g).map_err(|e| format!("request {n}: {e}"))?,
                    (Err(_), None) => {}
                    (Ok(g), None) => return Err(format!("request {n}: a cut answer is reported as the response {}", g.status())),
                    (Err(e), Some(_)) => return Err(format!("request {n} failed: {e}")),
                }
            }
            Ok(format!("sequences of {}", seq.len()))
        });
    }
}
