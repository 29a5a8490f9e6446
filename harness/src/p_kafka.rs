//! C20 Kafka: the real sink and librdkafka against a broker of our own.
use crate::core::*;
use crate::ensure;
use crate::io::*;
use cernan::metric::{global_ack_bag, Encoding, Metadata};
use cernan::sink::{Kafka, KafkaConfig, Sink};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;
use uuid::Uuid;

type Bytes = Vec<u8>;

#[derive(Clone, Debug)]
pub struct Pub {
    topic: String,
    key: Option<Bytes>,
    pub value: Option<Bytes>,
    headers: Vec<(String, Option<Bytes>)>,
    code: i16,
    /// acknowledgements of every connection when the attempt arrived
    acks: Vec<usize>,
}

pub struct Shared {
    /// answers still to be given, by payload
    pub script: HashMap<Bytes, VecDeque<i16>>,
    pub seen: Vec<Pub>,
    pub conns: Vec<Uuid>,
    pub bad: Vec<String>,
}

struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{} bytes wanted, {} left", n, self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn int(&mut self, n: usize) -> Result<i64, String> {
        let b = self.take(n)?;
        let mut v: i64 = if b[0] & 0x80 != 0 { -1 } else { 0 };
        for x in b {
            v = (v << 8) | i64::from(*x);
        }
        Ok(v)
    }
    fn varint(&mut self) -> Result<i64, String> {
        let (mut v, mut sh) = (0u64, 0);
        loop {
            let b = self.take(1)?[0];
            v |= u64::from(b & 0x7f) << sh;
            if b & 0x80 == 0 {
                return Ok((v >> 1) as i64 ^ -((v & 1) as i64));
            }
            sh += 7;
        }
    }
    fn string(&mut self) -> Result<Option<String>, String> {
        let n = self.int(2)?;
        if n < 0 {
            return Ok(None);
        }
        Ok(Some(String::from_utf8_lossy(self.take(n as usize)?).to_string()))
    }
    fn vbytes(&mut self) -> Result<Option<Bytes>, String> {
        let n = self.varint()?;
        if n < 0 {
            return Ok(None);
        }
        Ok(Some(self.take(n as usize)?.to_vec()))
    }
}

#[derive(Default)]
struct W(Bytes);
impl W {
    fn int(&mut self, n: usize, v: i64) -> &mut W {
        let b = v.to_be_bytes();
        self.0.extend_from_slice(&b[8 - n..]);
        self
    }
    fn string(&mut self, s: &str) -> &mut W {
        self.int(2, s.len() as i64);
        self.0.extend_from_slice(s.as_bytes());
        self
    }
}

/// key, value and headers of the records of a batch
fn records(b: &[u8]) -> Result<Vec<(Option<Bytes>, Option<Bytes>, Vec<(String, Option<Bytes>)>)>, String> {
    let mut r = R(b);
    let mut out = vec![];
    while !r.0.is_empty() {
        r.int(8)?;
        let len = r.int(4)? as usize;
        let mut r = R(r.take(len)?);
        r.int(4)?;
        let magic = r.int(1)?;
        if magic != 2 {
            return Err(format!("record format {}", magic));
        }
        r.int(4)?;
        let attr = r.int(2)?;
        if attr & 7 != 0 {
            return Err("compressed".into());
        }
        r.int(4)?;
        r.int(8)?;
        r.int(8)?;
        r.int(8)?;
        r.int(2)?;
        r.int(4)?;
        let n = r.int(4)?;
        for _ in 0..n {
            let len = r.varint()? as usize;
            let mut r = R(r.take(len)?);
            r.int(1)?;
            r.varint()?;
            r.varint()?;
            let key = r.vbytes()?;
            let val = r.vbytes()?;
            let nh = r.varint()?;
            let mut hs = vec![];
            for _ in 0..nh {
                let k = String::from_utf8_lossy(&r.vbytes()?.unwrap_or_default()).to_string();
                hs.push((k, r.vbytes()?));
            }
            out.push((key, val, hs));
        }
    }
    Ok(out)
}

const PARTS: i64 = 3;

fn answer(req: &[u8], port: u16, sh: &Mutex<Shared>) -> Result<Bytes, String> {
    let mut r = R(req);
    let api = r.int(2)?;
    let ver = r.int(2)?;
    let corr = r.int(4)?;
    r.string()?;
    let mut w = W::default();
    w.int(4, corr);
    match api {
        18 => {
            // fetch is never asked for, but makes the library use the newest record format
            w.int(2, 0).int(4, 4);
            for &(k, lo, hi) in &[(0, 0, 3), (1, 0, 4), (3, 0, 2), (18, 0, 0)] {
                w.int(2, k).int(2, lo).int(2, hi);
            }
        }
        3 => {
            let mut topics = vec![];
            let n = r.int(4)?;
            for _ in 0..n.max(0) {
                topics.push(r.string()?.unwrap_or_default());
            }
            w.int(4, 1).int(4, 1).string("127.0.0.1").int(4, i64::from(port));
            if ver >= 1 {
                w.int(2, -1);
            }
            if ver >= 2 {
                w.int(2, -1);
            }
            if ver >= 1 {
                w.int(4, 1);
            }
            w.int(4, topics.len() as i64);
            for t in &topics {
                w.int(2, 0).string(t);
                if ver >= 1 {
                    w.int(1, 0);
                }
                w.int(4, PARTS);
                for p in 0..PARTS {
                    w.int(2, 0).int(4, p).int(4, 1).int(4, 1).int(4, 1).int(4, 1).int(4, 1);
                }
            }
        }
        0 => {
            if ver >= 3 {
                r.string()?;
            }
            r.int(2)?;
            r.int(4)?;
            let nt = r.int(4)?;
            w.int(4, nt);
            for _ in 0..nt {
                let topic = r.string()?.unwrap_or_default();
                let np = r.int(4)?;
                w.string(&topic).int(4, np);
                for _ in 0..np {
                    let part = r.int(4)?;
                    let len = r.int(4)? as usize;
                    let recs = records(r.take(len)?)?;
                    if recs.len() != 1 {
                        return Err(format!("a batch of {}", recs.len()));
                    }
                    let mut code = 0;
                    let mut sh = sh.lock().unwrap();
                    for (key, value, headers) in recs {
                        if let Some(q) = value.as_ref().and_then(|v| sh.script.get_mut(v)) {
                            code = q.pop_front().unwrap_or(0);
                        }
                        let acks =
                            sh.conns.iter().map(|c| global_ack_bag().props_for(*c).map_or(0, |p| p.acks_received())).collect();
                        sh.seen.push(Pub { topic: topic.clone(), key, value, headers, code, acks });
                    }
                    w.int(4, part).int(2, i64::from(code)).int(8, if code == 0 { 7 } else { -1 });
                    if ver >= 2 {
                        w.int(8, -1);
                    }
                }
            }
            if ver >= 1 {
                w.int(4, 0);
            }
        }
        x => return Err(format!("request {}", x)),
    }
    Ok(w.0)
}

pub fn broker(l: TcpListener, port: u16, sh: Arc<Mutex<Shared>>, stop: Arc<AtomicBool>) {
    l.set_nonblocking(true).unwrap();
    while !stop.load(Ordering::SeqCst) {
        match l.accept() {
            Err(_) => thread::sleep(Duration::from_millis(1)),
            Ok((mut s, _)) => {
                let sh = Arc::clone(&sh);
                let stop = Arc::clone(&stop);
                thread::spawn(move || {
                    s.set_nonblocking(false).unwrap();
                    let _ = s.set_nodelay(true);
                    s.set_read_timeout(Some(Duration::from_millis(50))).unwrap();
                    let mut buf: Bytes = vec![];
                    let mut chunk = [0; 65536];
                    loop {
                        if buf.len() >= 4 {
                            let n = R(&buf[..4]).int(4).unwrap() as usize;
                            if buf.len() >= 4 + n {
                                let req: Bytes = buf[4..4 + n].to_vec();
                                buf.drain(..4 + n);
                                match answer(&req, port, &sh) {
                                    Err(e) => sh.lock().unwrap().bad.push(e),
                                    Ok(a) => {
                                        let mut out = (a.len() as u32).to_be_bytes().to_vec();
                                        out.extend_from_slice(&a);
                                        if s.write_all(&out).is_err() {
                                            return;
                                        }
                                    }
                                }
                                continue;
                            }
                        }
                        match read(&mut s, &mut chunk) {
                            Some(0) => {
                                if stop.load(Ordering::SeqCst) {
                                    return;
                                }
                            }
                            Some(n) => buf.extend_from_slice(&chunk[..n]),
                            None => return,
                        }
                    }
                });
            }
        }
    }
}

/// None: closed, Some(0): nothing for now
fn read(s: &mut TcpStream, b: &mut [u8]) -> Option<usize> {
    use std::io::ErrorKind::*;
    match s.read(b) {
        Ok(0) => None,
        Ok(n) => Some(n),
        Err(ref e) if e.kind() == WouldBlock || e.kind() == TimedOut || e.kind() == Interrupted => Some(0),
        Err(_) => None,
    }
}

/// Error codes which leave the message to be published again.
const RETRY: [i16; 12] = [2, 3, 5, 6, 7, 13, 14, 15, 16, 19, 20, 41];
const FINAL: [i16; 8] = [10, 17, 18, 29, 30, 31, 32, 21];

struct Out {
    order_by: u64,
    bytes: Bytes,
    metadata: Option<BTreeMap<Bytes, Bytes>>,
    conn: Option<usize>,
    script: Vec<i16>,
}

fn kafka(s: &mut Src, c: &mut Ctx) -> Res {
    let port = port(c.worker);
    let l = TcpListener::bind(("127.0.0.1", port)).expect("broker port");
    let sh = Arc::new(Mutex::new(Shared { script: HashMap::new(), seen: vec![], conns: vec![], bad: vec![] }));
    let stop = Arc::new(AtomicBool::new(false));
    let (sh2, st2) = (Arc::clone(&sh), Arc::clone(&stop));
    let th = thread::spawn(move || broker(l, port, sh2, st2));
    let r = kafka_body(s, c, port, &sh);
    stop.store(true, Ordering::SeqCst);
    let _ = th.join();
    r
}

fn kafka_body(s: &mut Src, c: &mut Ctx, port: u16, sh: &Arc<Mutex<Shared>>) -> Res {
    let topic = s.pick(&["t", "cernan-events", "a.b_c"]).to_string();
    let mut rd = HashMap::new();
    for (k, v) in &[
        ("message.send.max.retries", "0"),
        ("queue.buffering.max.ms", "0"),
        ("batch.num.messages", "1"),
        ("socket.blocking.max.ms", "1"),
        ("log.connection.close", "false"),
        ("retry.backoff.ms", "1"),
    ] {
        rd.insert(k.to_string(), v.to_string());
    }
    let max = s.pick(&[10usize, 1, 100, 0, 1 << 20]);
    let mut sink = Some(Kafka::init(KafkaConfig {
        config_path: None,
        topic_name: Some(topic.clone()),
        brokers: Some(format!("127.0.0.1:{}", port)),
        rdkafka_config: Some(rd),
        max_message_bytes: max,
        flush_interval: 1,
    }));
    let nconn = s.usize(1, 3);
    let conns: Vec<Uuid> = (0..nconn).map(|_| Uuid::new_v4()).collect();
    for u in &conns {
        global_ack_bag().prepare_wait(*u);
    }
    sh.lock().unwrap().conns = conns.clone();
    let mut held = 0usize;
    let mut outs: Vec<Out> = vec![];
    let mut flushed = 0; // publications settled so far
    let mut log = vec![format!("limit {}", max)];
    let n = s.usize(1, 12);
    let mut keys: BTreeMap<u64, Bytes> = BTreeMap::new();
    let (mut retries, mut finals) = (0, 0);
    let result = (|| -> Res {
        for i in 0..=n {
            let last = i == n;
            let open = format!("{:?}", sink.as_ref().unwrap().valve_state()) == "Open";
            ensure!(open == (held < max), "kafka-valve", "{} bytes held of {}: open is {}\n{}", held, max, open, log.join("\n"));
            if !last && !s.chance(1, 4) {
                let ix = outs.len();
                let mut bytes = format!("{}:", ix).into_bytes();
                for _ in 0..s.usize(0, 8) {
                    bytes.push(s.draw(256) as u8);
                }
                if s.chance(1, 8) && outs.iter().all(|o| !o.bytes.is_empty()) {
                    bytes.clear();
                }
                let metadata = if s.chance(1, 2) {
                    let mut m = BTreeMap::new();
                    for _ in 0..s.usize(0, 3) {
                        let k = s.pick(&[&b"k"[..], b"id", "Über".as_bytes(), b"", b"\xff\xfe", b"a\0b"]).to_vec();
                        let v: Bytes = (0..s.usize(0, 3)).map(|_| s.draw(256) as u8).collect();
                        m.insert(k, v);
                    }
                    Some(m)
                } else {
                    None
                };
                let order_by = if s.chance(1, 2) { s.draw(4) } else { s.u64() };
                let conn = if s.chance(3, 4) { Some(s.draw(nconn as u64) as usize) } else { None };
                let mut script: Vec<i16> = (0..s.pick(&[0usize, 0, 0, 1, 1, 2, 3])).map(|_| s.pick(&RETRY)).collect();
                if s.chance(1, 5) {
                    script.push(s.pick(&FINAL));
                    finals += 1;
                }
                retries += script.len();
                log.push(format!("deliver {} by {} {:?} {:?} conn {:?} answers {:?}", ix, order_by, bytes, metadata, conn, script));
                held += bytes.len();
                sh.lock().unwrap().script.insert(bytes.clone(), script.iter().cloned().collect());
                sink.as_mut().unwrap().deliver_raw(
                    order_by,
                    s.pick(&[Encoding::Raw, Encoding::Avro, Encoding::JSON]),
                    bytes.clone(),
                    metadata.as_ref().map(|m| {
                        let mut md = Metadata::default();
                        for (k, v) in m {
                            md.insert(k.clone(), v.clone());
                        }
                        md
                    }),
                    conn.map(|x| conns[x]),
                );
                outs.push(Out { order_by, bytes, metadata, conn, script });
                continue;
            }
            // acknowledgements wait for the flush
            for (ci, u) in conns.iter().enumerate() {
                let acks = global_ack_bag().props_for(*u).map_or(0, |p| p.acks_received());
                let want = outs[..flushed].iter().filter(|o| o.conn == Some(ci)).count();
                ensure!(acks <= outs.iter().filter(|o| o.conn == Some(ci)).count() && acks >= want, "kafka-ack", "{} acks before the flush\n{}", acks, log.join("\n"));
            }
            log.push("flush".into());
            let sk = sink.take().unwrap();
            let r = join_within(Duration::from_secs(60), move || {
                let mut sk = sk;
                if last {
                    sk.shutdown();
                    None
                } else {
                    sk.flush();
                    Some(sk)
                }
            });
            match r {
                None => return fail("kafka-stuck", format!("the flush does not end\n{}\n{:?}", log.join("\n"), sh.lock().unwrap().seen)),
                Some(Err(())) => return fail("kafka-panic", format!("the flush panicked\n{}", log.join("\n"))),
                Some(Ok(x)) => sink = x,
            }
            held = 0;
            let from = flushed;
            flushed = outs.len();
            let seen: Vec<Pub> = {
                let mut g = sh.lock().unwrap();
                ensure!(g.bad.is_empty(), "harness", "broker: {:?}", g.bad);
                g.seen.drain(..).collect()
            };
            for (ix, o) in outs.iter().enumerate().skip(from) {
                let mine: Vec<&Pub> = seen.iter().filter(|p| p.value.as_ref() == Some(&o.bytes)).collect();
                let final_at = o.script.iter().position(|x| FINAL.contains(x)).map_or(o.script.len(), |x| x);
                ensure!(
                    mine.len() == final_at + 1,
                    "kafka-attempts",
                    "event {} was published {} times, expected {}\n{}\n{:?}",
                    ix,
                    mine.len(),
                    final_at + 1,
                    log.join("\n"),
                    mine
                );
                for p in mine {
                    let got: BTreeMap<String, Option<Bytes>> = p.headers.iter().cloned().collect();
                    let want: BTreeMap<String, Option<Bytes>> = o
                        .metadata
                        .iter()
                        .flat_map(|m| m.iter())
                        .map(|(k, v)| (String::from_utf8_lossy(k).replace('\0', "\u{fffd}"), Some(v.clone())))
                        .collect();
                    ensure!(
                        p.headers.len() == got.len() && got == want,
                        "kafka-headers",
                        "headers {:?}, expected {:?}\n{}",
                        p.headers,
                        want,
                        log.join("\n")
                    );
                    ensure!(p.topic == topic, "kafka-topic", "topic {:?}", p.topic);
                    let k = match p.key {
                        Some(ref k) => k.clone(),
                        None => return fail("kafka-key", format!("no key\n{}", log.join("\n"))),
                    };
                    let old = keys.entry(o.order_by).or_insert_with(|| k.clone());
                    ensure!(*old == k, "kafka-key", "ordering key {} has message keys {:?} and {:?}", o.order_by, old, k);
                }
            }
            ensure!(
                seen.iter().all(|p| outs[from..].iter().any(|o| p.value.as_ref() == Some(&o.bytes))),
                "kafka-again",
                "a settled event was published again\n{}\n{:?}",
                log.join("\n"),
                seen
            );
            let mut settled: Vec<usize> =
                (0..nconn).map(|ci| outs[..from].iter().filter(|o| o.conn == Some(ci)).count()).collect();
            for p in &seen {
                let o = outs[from..].iter().find(|o| p.value.as_ref() == Some(&o.bytes)).unwrap();
                for ci in 0..nconn {
                    ensure!(
                        p.acks[ci] <= settled[ci],
                        "kafka-ack-early",
                        "connection {} had {} acknowledgements and {} settled events\n{}\n{:?}",
                        ci,
                        p.acks[ci],
                        settled[ci],
                        log.join("\n"),
                        seen
                    );
                }
                if p.code == 0 || FINAL.contains(&p.code) {
                    if let Some(ci) = o.conn {
                        settled[ci] += 1;
                    }
                }
            }
            for (ci, u) in conns.iter().enumerate() {
                let acks = global_ack_bag().props_for(*u).map_or(0, |p| p.acks_received());
                let want = outs.iter().filter(|o| o.conn == Some(ci)).count();
                ensure!(acks == want, "kafka-ack", "connection {}: {} acknowledgements for {} events\n{}", ci, acks, want, log.join("\n"));
            }
        }
        Ok(())
    })();
    for u in &conns {
        global_ack_bag().remove(*u);
    }
    result?;
    let distinct: std::collections::BTreeSet<&Bytes> = keys.values().collect();
    ensure!(distinct.len() == keys.len(), "kafka-key", "different ordering keys share a message key: {:?}", keys);
    c.nontrivial = outs.len() > 1;
    c.label_if(retries > 0, "retried");
    c.label_if(finals > 0, "permanent-failure");
    c.sample(|| log.join("; "));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        level: "exploration",
        rule: "random histories of raw events and flushes through the real sink and librdkafka to a scripted broker which assigns success, retryable and permanent errors to every publication; non-trivial = several events",
        assumptions: &[
            "librdkafka is told not to retry and not to batch, so that the broker sees what the sink decides",
            "event payloads are distinct; the broker stays reachable",
        ],
        subs: vec![Sub { name: "kafka", quick: 600, thorough: 12_000, workers: 0, confirm: 1, f: kafka }],
        known: vec![],
    }]
}
