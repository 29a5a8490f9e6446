//! C27: a source told to shut down does so soon, whatever its clients do, and
//! says so downstream once, after everything it has forwarded.
use crate::core::*;
use crate::ensure;
use crate::io::*;
use crate::p_e2e::{table, LISTEN};
use crate::p_tcp::{bytes_field, container, field, framed, method_no, varint};
use cernan::metric::{AggregationMethod as A, Event};
use cernan::source::{
    Avro, FileServer, FileServerConfig, Graphite, GraphiteConfig, NativeServer, NativeServerConfig, Source, Statsd, StatsdConfig,
    TCPConfig,
};
use cernan::thread::{Stoppable, ThreadHandle};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream, UdpSocket};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};
use tempdir::TempDir;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Graphite,
    Native,
    Avro,
    Statsd,
    File,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Does {
    /// some messages, and stays
    Burst(u64),
    /// some messages, and the beginning of another
    Partial(u64),
    /// some messages, and goes
    Gone(u64),
    /// some messages, and closes its half of the connection
    Half(u64),
    /// connects and drops again and again
    Knock,
    /// goes on sending
    Flood,
    /// messages that are not understood
    Garbage,
    /// waits for an answer nobody gives
    Waits(u64),
}

/// message no. k of client c
fn msg(kind: Kind, c: usize, k: u64, sync: bool, blob: &[u8]) -> Vec<u8> {
    match kind {
        Kind::Graphite => format!("c{}.{} {} 1500000000\n", c, k, k).into_bytes(),
        Kind::Statsd => format!("c{}.{}:1|c\n", c, k).into_bytes(),
        Kind::File => format!("c{}.{}\n", c, k).into_bytes(),
        Kind::Native => {
            let mut m = vec![];
            bytes_field(1, format!("c{}.{}", c, k).as_bytes(), &mut m);
            bytes_field(2, &1.0f64.to_bits().to_le_bytes(), &mut m);
            field(4, 0, &mut m);
            varint(method_no(A::Set), &mut m);
            let mut p = vec![];
            bytes_field(2, &m, &mut p);
            framed(&p)
        }
        Kind::Avro => {
            let mut b = vec![];
            b.extend_from_slice(&1u32.to_be_bytes());
            b.extend_from_slice(&(sync as u32).to_be_bytes());
            b.extend_from_slice(&k.to_be_bytes());
            b.extend_from_slice(&(((c as u64) << 32) | k).to_be_bytes());
            b.extend_from_slice(blob);
            framed(&b)
        }
    }
}

fn garbage(kind: Kind) -> Vec<u8> {
    match kind {
        Kind::Graphite | Kind::Statsd => b"no such thing\n".to_vec(),
        _ => vec![],
    }
}

fn ident(e: &Event) -> Option<(usize, u64)> {
    let name = match *e {
        Event::Telemetry(ref t) => t.name.clone(),
        Event::Log(ref l) => l.value.clone(),
        Event::Raw { order_by, .. } => return Some(((order_by >> 32) as usize, order_by & 0xffff_ffff)),
        _ => return None,
    };
    let mut f = name.trim_start_matches('c').split('.');
    Some((f.next()?.parse().ok()?, f.next()?.parse().ok()?))
}

struct Client {
    /// messages wholly written
    sent: Arc<AtomicU64>,
    done: Arc<AtomicBool>,
    th: Option<thread::JoinHandle<Option<String>>>,
}

const FLOOD: Duration = Duration::from_secs(45);
const LIMIT: Duration = Duration::from_secs(20);

fn tcp(kind: Kind, c: usize, does: Does, port: u16, blob: Vec<u8>, stop: Arc<AtomicBool>) -> Client {
    let sent = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let (n, d) = (Arc::clone(&sent), Arc::clone(&done));
    let th = thread::spawn(move || {
        let start = Instant::now();
        let over = || stop.load(Ordering::SeqCst) || start.elapsed() > FLOOD;
        let mut t = loop {
            match TcpStream::connect(("127.0.0.1", port)) {
                Ok(t) => break t,
                Err(_) if over() => return None,
                Err(_) => thread::sleep(Duration::from_millis(1)),
            }
        };
        let _ = t.set_nodelay(true);
        let _ = t.set_write_timeout(Some(Duration::from_millis(200)));
        let mut put = |t: &mut TcpStream, m: u64, sync: bool| {
            for k in 0..m {
                if t.write_all(&msg(kind, c, k, sync, &blob)).is_err() {
                    return;
                }
                n.store(k + 1, Ordering::SeqCst);
            }
        };
        match does {
            Does::Burst(m) => put(&mut t, m, false),
            Does::Gone(m) => {
                put(&mut t, m, false);
                d.store(true, Ordering::SeqCst);
                return None;
            }
            Does::Half(m) => {
                put(&mut t, m, false);
                let _ = t.shutdown(Shutdown::Write);
            }
            Does::Partial(m) => {
                put(&mut t, m, false);
                let x = msg(kind, c, m, false, &blob);
                let _ = t.write_all(&x[..x.len() / 2]);
            }
            Does::Waits(m) => put(&mut t, m, true),
            Does::Knock => {
                d.store(true, Ordering::SeqCst);
                while !over() {
                    drop(TcpStream::connect(("127.0.0.1", port)));
                    thread::sleep(Duration::from_millis(3));
                }
                return None;
            }
            Does::Garbage => {
                d.store(true, Ordering::SeqCst);
                let g = (0..200).flat_map(|_| garbage(kind)).collect::<Vec<u8>>();
                while !over() && t.write_all(&g).is_ok() {}
                return None;
            }
            Does::Flood => {
                d.store(true, Ordering::SeqCst);
                let _ = t.set_nodelay(false);
                let _ = t.set_write_timeout(Some(Duration::from_secs(5)));
                let mut k = 0;
                while !over() {
                    let mut b = vec![];
                    for i in 0..64 {
                        b.extend(msg(kind, c, k + i, false, &blob));
                    }
                    // counted before: a part of it may be read
                    n.store(k + 64, Ordering::SeqCst);
                    if t.write_all(&b).is_err() {
                        return None;
                    }
                    k += 64;
                }
                return None;
            }
        }
        d.store(true, Ordering::SeqCst);
        // until cernan closes the connection
        let _ = t.set_read_timeout(Some(Duration::from_millis(50)));
        let mut back = vec![];
        let mut b = [0; 64];
        while !over() {
            match t.read(&mut b) {
                Ok(0) => break,
                Ok(k) => back.extend_from_slice(&b[..k]),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {}
                Err(_) => break,
            }
        }
        if back.is_empty() {
            None
        } else {
            Some(format!("client {} is sent {:?}", c, back))
        }
    });
    Client { sent, done, th: Some(th) }
}

fn udp(c: usize, does: Does, port: u16, stop: Arc<AtomicBool>) -> Client {
    let sent = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let (n, d) = (Arc::clone(&sent), Arc::clone(&done));
    let th = thread::spawn(move || {
        let start = Instant::now();
        let s = UdpSocket::bind("127.0.0.1:0").unwrap();
        let (m, per) = match does {
            Does::Burst(m) | Does::Gone(m) | Does::Partial(m) | Does::Half(m) | Does::Waits(m) => (m, 1),
            Does::Garbage => (0, 1),
            Does::Knock => (u64::max_value(), 1),
            Does::Flood => (u64::max_value(), 20),
        };
        if m == u64::max_value() {
            d.store(true, Ordering::SeqCst);
        }
        let mut k = 0;
        while k < m && !stop.load(Ordering::SeqCst) && start.elapsed() < FLOOD {
            let mut b = vec![];
            for i in 0..per {
                b.extend(msg(Kind::Statsd, c, k + i, false, &[]));
            }
            n.store(k + per, Ordering::SeqCst);
            let _ = s.send_to(&b, ("127.0.0.1", port));
            k += per;
        }
        d.store(true, Ordering::SeqCst);
        while does == Does::Garbage && !stop.load(Ordering::SeqCst) && start.elapsed() < FLOOD {
            let _ = s.send_to(&(0..20).flat_map(|_| garbage(Kind::Statsd)).collect::<Vec<u8>>(), ("127.0.0.1", port));
        }
        None
    });
    Client { sent, done, th: Some(th) }
}

fn file(c: usize, does: Does, dir: &Path, stop: Arc<AtomicBool>) -> Client {
    let sent = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let (n, d) = (Arc::clone(&sent), Arc::clone(&done));
    let path: PathBuf = dir.join(format!("c{}.log", c));
    let mut f = fs::OpenOptions::new().create(true).append(true).open(&path).unwrap();
    let th = thread::spawn(move || {
        let start = Instant::now();
        let m = match does {
            Does::Burst(m) | Does::Gone(m) | Does::Partial(m) | Does::Half(m) | Does::Waits(m) => m,
            Does::Garbage | Does::Knock | Does::Flood => u64::max_value(),
        };
        if m == u64::max_value() {
            d.store(true, Ordering::SeqCst);
        }
        let mut k = 0;
        while k < m && !stop.load(Ordering::SeqCst) && start.elapsed() < FLOOD && k < 20_000_000 {
            let per = if m == u64::max_value() { 64 } else { 1 };
            let mut b = vec![];
            for i in 0..per {
                b.extend(msg(Kind::File, c, k + i, false, &[]));
            }
            n.store(k + per, Ordering::SeqCst);
            f.write_all(&b).unwrap();
            k += per;
            if per > 1 {
                thread::sleep(Duration::from_micros(500));
            }
        }
        if let Does::Partial(_) = does {
            f.write_all(b"c0.").unwrap();
        }
        if let Does::Gone(_) = does {
            let _ = fs::remove_file(&path);
        }
        d.store(true, Ordering::SeqCst);
        None
    });
    Client { sent, done, th: Some(th) }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.pick(&[Kind::Graphite, Kind::Native, Kind::Avro, Kind::Statsd, Kind::File]);
    let n = s.weighted(&[1, 6, 4, 2, 1]);
    // floods take the time allowed for them
    let busy = s.chance(1, 3);
    let many = s.chance(1, 6);
    let blob = container(s);
    let does: Vec<Does> = (0..n)
        .map(|_| {
            let k = if many { s.usize(100, 3000) as u64 } else { s.usize(0, 30) as u64 };
            match s.weighted(&[4, 3, 2, 2, 1, if busy { 8 } else { 0 }, if busy { 3 } else { 0 }, if kind == Kind::Avro { 6 } else { 0 }]) {
                0 => Does::Burst(k),
                1 => Does::Partial(k),
                2 => Does::Gone(k),
                3 => Does::Half(k),
                4 => Does::Knock,
                5 => Does::Flood,
                6 if kind == Kind::Graphite || kind == Kind::Statsd => Does::Garbage,
                6 => Does::Flood,
                _ => Does::Waits(k.max(1)),
            }
        })
        .collect();
    let delay = s.pick(&[0u64, 0, 1, 5, 20, 60]);
    // told to stop once everything that is written has been taken from the kernel
    let settle = !busy && s.chance(2, 3);
    let log = format!("{:?}, clients {:?}, told to stop after {} ms{}", kind, does, delay, if settle { " when all is read" } else { "" });

    let tap = Tap::new();
    let port = port(c.worker);
    let dir = TempDir::new("vhs").expect("scratch directory");
    let ip = "127.0.0.1".to_string();
    let at = Some("x".to_string());
    let mut clients = vec![];
    let stop = Arc::new(AtomicBool::new(false));
    take_panics();
    let th: ThreadHandle = match kind {
        Kind::Graphite => Graphite::new(tap.chans(), GraphiteConfig { host: ip, port, forwards: vec![], config_path: at }.into()).run(),
        Kind::Native => NativeServer::new(tap.chans(), NativeServerConfig { ip, port, forwards: vec![], config_path: at }.into()).run(),
        Kind::Avro => Avro::new(tap.chans(), TCPConfig { host: ip, port, forwards: vec![], config_path: at }).run(),
        Kind::Statsd => Statsd::new(tap.chans(), StatsdConfig { host: ip, port, config_path: at, ..StatsdConfig::default() }).run(),
        Kind::File => {
            // there before the source, and empty
            for (i, d) in does.iter().enumerate() {
                let _ = d;
                fs::write(dir.path().join(format!("c{}.log", i)), b"").unwrap();
            }
            FileServer::new(
                tap.chans(),
                FileServerConfig { path: Some(dir.path().join("*.log")), max_read_bytes: 2048, forwards: vec![], config_path: at },
            )
            .run()
        }
    };
    if kind == Kind::File {
        // a beacon tells that it is reading
        let p = dir.path().join("c99.log");
        fs::write(&p, b"").unwrap();
        let up = eventually(Duration::from_secs(20), || {
            fs::OpenOptions::new().append(true).open(&p).unwrap().write_all(b"c99.0\n").unwrap();
            thread::sleep(Duration::from_millis(5));
            tap.next(Duration::from_millis(5)).is_some()
        });
        ensure!(up, "stop-start", "the file source does not read");
    }
    for (i, d) in does.iter().enumerate() {
        clients.push(match kind {
            Kind::Statsd => udp(i, *d, port, Arc::clone(&stop)),
            Kind::File => file(i, *d, dir.path(), Arc::clone(&stop)),
            _ => tcp(kind, i, *d, port, blob.clone(), Arc::clone(&stop)),
        });
    }
    let lossless = kind == Kind::Graphite || kind == Kind::Native || kind == Kind::Avro;
    let mut settled = false;
    if settle && lossless {
        settled = eventually(Duration::from_secs(10), || {
            clients.iter().all(|c| c.done.load(Ordering::SeqCst))
                && table("tcp").iter().all(|e| e.0 != port || e.1 == LISTEN || e.2 == 0)
        });
    } else {
        let start = Instant::now();
        while start.elapsed() < Duration::from_millis(delay) {
            thread::sleep(Duration::from_micros(200));
        }
    }
    let t0 = Instant::now();
    let done = join_within(LIMIT, move || th.shutdown());
    let took = t0.elapsed();
    let (evs, told) = if done.is_some() { tap.until(LIMIT, |e| *e == Event::Shutdown) } else { (vec![], false) };
    thread::sleep(Duration::from_millis(5));
    let after = tap.now();
    stop.store(true, Ordering::SeqCst);
    let mut back = vec![];
    let mut sent = vec![];
    for cl in clients.iter_mut() {
        if let Some(r) = cl.th.take().and_then(|t| t.join().ok()) {
            back.extend(r);
        }
        sent.push(cl.sent.load(Ordering::SeqCst));
    }
    match done {
        None => return fail("stop-hangs", format!("told to stop, still running after {:?}: {}", LIMIT, log)),
        Some(Err(_)) => return fail("stop-panic", format!("shutting down panics {:?}: {}", take_panics(), log)),
        Some(Ok(())) => {}
    }
    ensure!(told, "stop-silent", "no shutdown event downstream: {}", log);
    ensure!(after.is_empty(), "stop-after", "after the shutdown event come {} events, first {:?}: {}", after.len(), after[0], log);
    ensure!(back.is_empty(), "stop-answer", "{:?} although nothing was acknowledged: {}", back, log);
    // what each client sent, in order, from the first on
    let mut seen: BTreeMap<usize, u64> = BTreeMap::new();
    for e in &evs {
        if *e == Event::Shutdown {
            continue;
        }
        let (cl, k) = match ident(e) {
            Some(x) => x,
            None => return fail("stop-event", format!("unexpected event {:?}: {}", e, log)),
        };
        if cl == 99 {
            continue;
        }
        ensure!(cl < n, "stop-event", "unexpected event {:?}: {}", e, log);
        let next = seen.entry(cl).or_insert(0);
        ensure!(
            if lossless || kind == Kind::File { k == *next } else { k >= *next },
            "stop-order",
            "of client {} message {} comes where {} is due: {}",
            cl,
            k,
            next,
            log
        );
        *next = k + 1;
    }
    for i in 0..n {
        let got = seen.get(&i).cloned().unwrap_or(0);
        ensure!(got <= sent[i], "stop-event", "client {} sent {} messages, {} arrive: {}", i, sent[i], got, log);
        if settled {
            match does[i] {
                Does::Burst(_) | Does::Partial(_) | Does::Gone(_) | Does::Half(_) => ensure!(
                    got == sent[i],
                    "stop-lost",
                    "of {} messages of client {} read before it is told to stop, {} are forwarded: {}",
                    sent[i],
                    i,
                    got,
                    log
                ),
                _ => {}
            }
        }
    }
    let flood = does.iter().any(|d| *d == Does::Flood || *d == Does::Garbage);
    let waits = does.iter().any(|d| if let Does::Waits(_) = *d { true } else { false });
    let partial = does.iter().any(|d| if let Does::Partial(_) = *d { true } else { false });
    c.nontrivial = flood || waits || (partial && evs.len() > 1) || (settled && evs.len() > 3);
    c.label_if(flood, "client-goes-on-sending");
    c.label_if(waits, "client-waits-for-answer");
    c.label_if(partial, "half-a-message");
    c.label_if(settled, "all-read");
    c.label_if(many, "large-burst");
    c.label_if(took > Duration::from_secs(1), "used-its-grace");
    c.label(match kind {
        Kind::Graphite => "graphite",
        Kind::Native => "native",
        Kind::Avro => "avro",
        Kind::Statsd => "statsd",
        Kind::File => "file",
    });
    c.sample(|| format!("{}; ended after {:?} with {} events", log, took, evs.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        level: "exploration",
        rule: "random clients of every kind of source (bursts, half messages, half-closed and dropped connections, knocking, endless valid and malformed traffic, publishers waiting for an acknowledgement nobody gives); the source is told to stop at a random point or once everything written has been read; non-trivial = a client goes on sending, or waits, or has sent half a message, or more than two events were read in full before the stop",
        assumptions: &["20 s are enough to stop on this machine", "what the kernel no longer holds has been read"],
        subs: vec![Sub { name: "stop", quick: 300, thorough: 8_000, workers: 0, confirm: 2, f: run }],
        known: vec![],
    }]
}
