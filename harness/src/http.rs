//! A minimal HTTP/1.1 server on the loopback interface: serves registered bodies and
//! redirects, records every request it gets.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpListener;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone)]
pub enum Reply { Body(Vec<u8>), Redirect(String), Status(u16) }
#[derive(Clone, Debug)]
pub struct Req { pub host: String, pub auth: Option<String> }
#[derive(Default)]
pub struct State { pub routes: HashMap<String, Reply>, pub log: HashMap<String, Vec<Req>> }
pub struct Server { pub port: u16, pub state: Arc<Mutex<State>> }

pub fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind loopback");
        let port = l.local_addr().unwrap().port();
        let state: Arc<Mutex<State>> = Arc::default();
        let st = state.clone();
        let _ = std::thread::spawn(move || for c in l.incoming() {
            let Ok(c) = c else { continue };
            let st = st.clone();
            let _ = std::thread::spawn(move || {
                let _ = c.set_nodelay(true); let _ = c.set_read_timeout(Some(std::time::Duration::from_secs(20)));
                let mut w = c.try_clone().unwrap();
                let mut r = BufReader::new(c);
                loop {
                    let mut line = String::new();
                    if r.read_line(&mut line).unwrap_or(0) == 0 { return; }
                    let path = line.split(' ').nth(1).unwrap_or("").to_owned();
                    let mut req = Req { host: String::new(), auth: None }; let mut len = 0usize;
                    loop {
                        let mut h = String::new();
                        if r.read_line(&mut h).unwrap_or(0) == 0 { return; }
                        let h = h.trim_end();
                        if h.is_empty() { break; }
                        let (k, v) = h.split_once(':').unwrap_or((h, ""));
                        match k.to_ascii_lowercase().as_str() { "host" => req.host = v.trim().into(), "authorization" => req.auth = Some(v.trim().into()), "content-length" => len = v.trim().parse().unwrap_or(0), _ => {} }
                    }
                    let mut b = vec![0; len]; if r.read_exact(&mut b).is_err() { return; }
                    let reply = { let mut s = st.lock().unwrap(); s.log.entry(path.clone()).or_default().push(req); s.routes.get(&path).cloned() };
                    let (head, body) = match reply {
                        Some(Reply::Body(b)) => (format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n", b.len()), b),
                        Some(Reply::Redirect(to)) => (format!("HTTP/1.1 302 Found\r\nLocation: {to}\r\nContent-Length: 0\r\n"), vec![]),
                        Some(Reply::Status(s)) => (format!("HTTP/1.1 {s} X\r\nContent-Length: 0\r\n"), vec![]),
                        None => ("HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n".into(), vec![]),
                    };
                    let mut out = head.into_bytes(); out.extend_from_slice(b"\r\n"); out.extend_from_slice(&body);
                    if w.write_all(&out).and_then(|_| w.flush()).is_err() { return; }
                }
            });
        });
        Server { port, state }
    })
}
impl Server {
    pub fn put(&self, path: &str, r: Reply) { let _ = self.state.lock().unwrap().routes.insert(path.into(), r); }
    /// Removes what was registered and recorded below `prefix`, returning the log.
    pub fn take(&self, prefix: &str) -> HashMap<String, Vec<Req>> {
        let mut s = self.state.lock().unwrap();
        s.routes.retain(|k, _| !k.starts_with(prefix));
        let keys: Vec<String> = s.log.keys().filter(|k| k.starts_with(prefix)).cloned().collect();
        keys.into_iter().map(|k| { let v = s.log.remove(&k).unwrap(); (k, v) }).collect()
    }
}
pub fn token() -> String {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    format!("u{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))
}
