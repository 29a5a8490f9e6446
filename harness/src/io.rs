//! Plumbing for black-box checks: queues with a tap, ports, scratch space.
use crate::core::Src;
use cernan::metric::Event;
use cernan::util::Channel;
use std::net::{TcpListener, UdpSocket};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::thread;
use std::time::{Duration, Instant};
use tempdir::TempDir;

pub type Tx = hopper::Sender<Event>;
pub type Rx = hopper::Receiver<Event>;

/// A queue as cernan makes them, in a scratch directory.
pub fn queue(mem: usize, disk: usize, files: usize) -> (Tx, Rx, TempDir) {
    let d = TempDir::new("vh").expect("scratch directory");
    let (tx, rx) =
        hopper::channel_with_explicit_capacity("q", d.path(), mem, disk, files).expect("queue");
    (tx, rx, d)
}

pub fn big_queue() -> (Tx, Rx, TempDir) {
    queue(2_097_152, 104_857_600, 100)
}

const STOP: u64 = 0xdead_beef_dead_beef;

/// The receiving end of a queue, readable with a timeout.
pub struct Tap {
    tx: Tx,
    rx: mpsc::Receiver<Event>,
    th: Option<thread::JoinHandle<()>>,
    _dir: TempDir,
}

impl Tap {
    pub fn new() -> Tap {
        let (tx, rx, dir) = big_queue();
        let (otx, orx) = mpsc::channel();
        let th = thread::spawn(move || {
            for ev in rx.into_iter() {
                if let Event::TimerFlush(STOP) = ev {
                    return;
                }
                if otx.send(ev).is_err() {
                    return;
                }
            }
        });
        Tap { tx, rx: orx, th: Some(th), _dir: dir }
    }
    pub fn sender(&self) -> Tx {
        self.tx.clone()
    }
    pub fn chans(&self) -> Channel {
        vec![self.tx.clone()]
    }
    pub fn next(&self, wait: Duration) -> Option<Event> {
        self.rx.recv_timeout(wait).ok()
    }
    /// Everything until `stop` says so (the last event is included), or the
    /// wait for one event exceeds `wait`.
    pub fn until<F: FnMut(&Event) -> bool>(&self, wait: Duration, mut stop: F) -> (Vec<Event>, bool) {
        let mut out = vec![];
        loop {
            match self.next(wait) {
                None => return (out, false),
                Some(ev) => {
                    let s = stop(&ev);
                    out.push(ev);
                    if s {
                        return (out, true);
                    }
                }
            }
        }
    }
    /// Everything up to the stop mark: only what was sent before is seen.
    pub fn drain(mut self) -> Vec<Event> {
        self.stop();
        self.rx.try_iter().collect()
    }
    /// whatever has arrived so far
    pub fn now(&self) -> Vec<Event> {
        self.rx.try_iter().collect()
    }
    fn stop(&mut self) {
        if let Some(th) = self.th.take() {
            let _ = self.tx.send(Event::TimerFlush(STOP));
            let _ = self.tx.flush();
            let _ = th.join();
        }
    }
}
impl Drop for Tap {
    fn drop(&mut self) {
        self.stop();
    }
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// A port below the ephemeral range that is free now (for TCP and UDP).
pub fn port(worker: usize) -> u16 {
    let span = 1100;
    let pid = std::process::id() as usize;
    loop {
        let i = NEXT.fetch_add(1, Ordering::SeqCst);
        let p = (21_000 + (worker % 8) * span + (pid * 131 + i) % span) as u16;
        if TcpListener::bind(("127.0.0.1", p)).is_ok() && UdpSocket::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

/// Wait for a condition; false when it did not come true in time.
pub fn eventually<F: FnMut() -> bool>(wait: Duration, mut f: F) -> bool {
    let start = Instant::now();
    let mut step = 1;
    loop {
        if f() {
            return true;
        }
        if start.elapsed() > wait {
            return false;
        }
        thread::sleep(Duration::from_millis(step));
        step = (step * 2).min(20);
    }
}

/// Join a thread with a limit. None: still running; Some(false): it panicked.
pub fn join_within<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(
    wait: Duration,
    f: F,
) -> Option<Result<T, ()>> {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
        let _ = tx.send(r);
    });
    rx.recv_timeout(wait).ok()
}

/// Cut a byte string into 1..=n non-empty pieces.
pub fn cuts(s: &mut Src, bytes: &[u8], n: usize) -> Vec<Vec<u8>> {
    if bytes.is_empty() {
        return vec![];
    }
    let k = s.usize(0, n.min(bytes.len()) - 1);
    let mut at: Vec<usize> = (0..k).map(|_| s.usize(1, bytes.len() - 1)).collect();
    at.sort();
    at.dedup();
    let mut out = vec![];
    let mut last = 0;
    for a in at {
        out.push(bytes[last..a].to_vec());
        last = a;
    }
    out.push(bytes[last..].to_vec());
    out
}
