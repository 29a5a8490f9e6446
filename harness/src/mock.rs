//! A scripted HTTP server.
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Seen {
    pub head: String,
    pub body: Vec<u8>,
    pub answer: Ans,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Reply(u16, String),
    /// reply and close the connection
    Last(u16, String),
    /// close without an answer
    Close,
    /// close in the middle of the answer
    Cut(u16),
}

type Answer = Box<dyn FnMut(&[u8]) -> Ans + Send>;

struct State {
    seen: VecDeque<Seen>,
    answer: Answer,
}

pub struct Mock {
    pub port: u16,
    state: Arc<Mutex<State>>,
    stop: Arc<AtomicBool>,
    outage: Arc<AtomicUsize>,
    th: Option<thread::JoinHandle<()>>,
}

fn serve(mut s: TcpStream, state: Arc<Mutex<State>>, stop: Arc<AtomicBool>) {
    s.set_read_timeout(Some(Duration::from_millis(5))).unwrap();
    let _ = s.set_nodelay(true);
    let mut buf: Vec<u8> = vec![];
    let mut chunk = vec![0u8; 65536];
    loop {
        // one request
        let (head, body) = loop {
            if let Some(at) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&buf[..at]).to_string();
                let low = head.to_lowercase();
                let n = low
                    .split("\r\n")
                    .find(|l| l.starts_with("content-length:"))
                    .and_then(|l| l["content-length:".len()..].trim().parse::<usize>().ok())
                    .unwrap_or(0);
                if buf.len() >= at + 4 + n {
                    let body = buf[at + 4..at + 4 + n].to_vec();
                    buf.drain(..at + 4 + n);
                    break (head, body);
                }
            }
            match s.read(&mut chunk) {
                Ok(0) => return,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(ref e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut || e.kind() == ErrorKind::Interrupted => {
                    if stop.load(Ordering::SeqCst) {
                        return;
                    }
                }
                Err(_) => return,
            }
        };
        let ans = {
            let mut guard = state.lock().unwrap();
            let st = &mut *guard;
            let ans = (st.answer)(&body);
            st.seen.push_back(Seen { head, body, answer: ans.clone() });
            ans
        };
        let reply = |code: u16, text: &str, close: bool| {
            format!(
                "HTTP/1.1 {} X\r\nContent-Type: application/json\r\n{}{}\r\n{}",
                code,
                if code == 204 { "".to_string() } else { format!("Content-Length: {}\r\n", text.len()) },
                if close { "Connection: close\r\n" } else { "" },
                if code == 204 { "" } else { text }
            )
        };
        match ans {
            Ans::Reply(code, text) => {
                if s.write_all(reply(code, &text, false).as_bytes()).is_err() {
                    return;
                }
            }
            Ans::Last(code, text) => {
                let _ = s.write_all(reply(code, &text, true).as_bytes());
                return;
            }
            Ans::Close => return,
            Ans::Cut(code) => {
                let _ = s.write_all(format!("HTTP/1.1 {}", code).as_bytes());
                return;
            }
        }
    }
}

impl Mock {
    pub fn new(port: u16, answer: Answer) -> Mock {
        let state = Arc::new(Mutex::new(State { seen: VecDeque::new(), answer }));
        let stop = Arc::new(AtomicBool::new(false));
        let outage = Arc::new(AtomicUsize::new(0));
        let (st, sp, ou) = (Arc::clone(&state), Arc::clone(&stop), Arc::clone(&outage));
        let bind = move || {
            let start = Instant::now();
            loop {
                match TcpListener::bind(("127.0.0.1", port)) {
                    Ok(l) => {
                        l.set_nonblocking(true).unwrap();
                        return Some(l);
                    }
                    Err(_) if start.elapsed() < Duration::from_secs(20) => thread::sleep(Duration::from_millis(2)),
                    Err(_) => return None,
                }
            }
        };
        let first = bind();
        let th = thread::spawn(move || {
            let mut l = first;
            let mut kids = vec![];
            let mut cut = Arc::new(AtomicBool::new(false));
            while !sp.load(Ordering::SeqCst) {
                let ms = ou.swap(0, Ordering::SeqCst);
                if ms > 0 {
                    // nobody listens, and nobody answers on old connections
                    cut.store(true, Ordering::SeqCst);
                    drop(l.take());
                    thread::sleep(Duration::from_millis(ms as u64));
                    cut = Arc::new(AtomicBool::new(false));
                    l = bind();
                }
                let a = match l {
                    Some(ref l) => l.accept(),
                    None => return,
                };
                match a {
                    Ok((s, _)) => {
                        s.set_nonblocking(false).unwrap();
                        let (st, c) = (Arc::clone(&st), Arc::clone(&cut));
                        kids.push(thread::spawn(move || serve(s, st, c)));
                    }
                    Err(_) => thread::sleep(Duration::from_millis(1)),
                }
            }
            cut.store(true, Ordering::SeqCst);
            for k in kids {
                let _ = k.join();
            }
        });
        Mock { port, state, stop, outage, th: Some(th) }
    }
    pub fn answer(&self, a: Answer) {
        self.state.lock().unwrap().answer = a;
    }
    pub fn seen(&self) -> Vec<Seen> {
        self.state.lock().unwrap().seen.drain(..).collect()
    }
    /// nobody listens for a while, starting soon
    pub fn outage(&self, ms: usize) {
        self.outage.store(ms, Ordering::SeqCst);
    }
}
impl Drop for Mock {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
    }
}
