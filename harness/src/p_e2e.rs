//! C25: a whole cernan process, started from a generated configuration file,
//! fed through its sources, told to terminate, and what its sinks delivered
//! compared with what the configuration says should arrive there.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::mock::{Ans, Mock};
use crate::p_http::{bulk_answer, ids_of, influx_want, line as influx_line};
use crate::p_kafka::{broker, Shared};
use crate::p_prom::{exposition, http_get};
use crate::p_tcp::{bytes_field, field, framed, map_field, method_no, publication, varint};
use crate::p_wave::{parse as wave_line, Want};
use cernan::metric::{AggregationMethod as A, Event};
use cernan::source::{NativeServer, NativeServerConfig, Source};
use cernan::thread::Stoppable;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream, UdpSocket};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
use tempdir::TempDir;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Snk {
    Console,
    Null,
    Native,
    Influx,
    Wave,
    Elastic,
    Prom,
    Kafka,
}
const SINKS: [Snk; 8] = [Snk::Console, Snk::Native, Snk::Influx, Snk::Null, Snk::Wave, Snk::Elastic, Snk::Prom, Snk::Kafka];

impl Snk {
    fn path(self) -> &'static str {
        match self {
            Snk::Console => "sinks.console",
            Snk::Null => "sinks.null",
            Snk::Native => "sinks.native",
            Snk::Influx => "sinks.influxdb",
            Snk::Wave => "sinks.wavefront",
            Snk::Elastic => "sinks.elasticsearch",
            Snk::Prom => "sinks.prometheus",
            Snk::Kafka => "sinks.kafka.k1",
        }
    }
}

#[derive(Clone, Debug)]
enum Flt {
    Delay(i64),
    Json,
    Boundary(u64),
    /// the tag set on everything
    Tag(String),
    DropMetrics,
    DropLogs,
    Pass,
}

#[derive(Clone, Debug)]
struct Filter {
    kind: Flt,
    name: String,
    to: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sk {
    Statsd,
    Graphite,
    Native,
    File,
    Avro,
}

struct Source_ {
    kind: Sk,
    name: String,
    to: Vec<usize>,
    port: u16,
    evs: Vec<Ev>,
}

/// an event that a source is given
#[derive(Clone, Debug)]
struct Ev {
    what: What,
    name: String,
    tags: Tags,
    /// None: now
    ts: Option<i64>,
    /// what is written to the source
    bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
enum What {
    Point { kind: A, vals: Vec<f64>, persist: bool },
    Log(String),
    Raw(Vec<u8>),
}

/// an event that arrives at a sink
#[derive(Clone, Debug)]
struct Copy_ {
    src: usize,
    ev: Ev,
    tags: Tags,
    json: bool,
    /// held by a flush boundary on the way
    held: bool,
}

struct Plan {
    tags: Tags,
    filters: Vec<Filter>,
    sinks: Vec<Snk>,
    sources: Vec<Source_>,
}

impl Plan {
    fn node(&self, i: usize) -> String {
        if i < self.filters.len() {
            self.filters[i].path()
        } else {
            self.sinks[i - self.filters.len()].path().to_string()
        }
    }
    fn nodes(&self) -> usize {
        self.filters.len() + self.sinks.len()
    }
    fn walk(&self, at: usize, mut c: Copy_, now: i64, out: &mut Vec<(Snk, Copy_)>) {
        if at >= self.filters.len() {
            out.push((self.sinks[at - self.filters.len()], c));
            return;
        }
        let f = &self.filters[at];
        let point = if let What::Point { .. } = c.ev.what { true } else { false };
        let log = if let What::Log(_) = c.ev.what { !c.json } else { false };
        match f.kind {
            Flt::Delay(t) => {
                if point || log {
                    if let Some(ts) = c.ev.ts {
                        if (ts - now).abs() >= t {
                            return;
                        }
                    }
                }
            }
            Flt::Json => {
                if log {
                    c.json = true;
                }
            }
            Flt::Boundary(_) => {
                if point || log {
                    c.held = true;
                }
            }
            Flt::Tag(ref k) => {
                if point || log {
                    c.tags.insert(k.clone(), "1".into());
                }
            }
            Flt::DropMetrics => {
                if point {
                    return;
                }
            }
            Flt::DropLogs => {
                if log {
                    return;
                }
            }
            Flt::Pass => {}
        }
        for t in &f.to {
            self.walk(*t, c.clone(), now, out);
        }
    }
    fn copies(&self, now: i64) -> Vec<(Snk, Copy_)> {
        let mut out = vec![];
        for (i, s) in self.sources.iter().enumerate() {
            for t in &s.to {
                for e in &s.evs {
                    self.walk(*t, Copy_ { src: i, ev: e.clone(), tags: e.tags.clone(), json: false, held: false }, now, &mut out);
                }
            }
        }
        out
    }
    fn reaches(&self, at: usize, k: Snk) -> usize {
        if at >= self.filters.len() {
            return (self.sinks[at - self.filters.len()] == k) as usize;
        }
        self.filters[at].to.iter().map(|t| self.reaches(*t, k)).sum()
    }
}

impl Filter {
    fn path(&self) -> String {
        let k = match self.kind {
            Flt::Delay(_) => "delay",
            Flt::Json => "json_encode",
            Flt::Boundary(_) => "flush_boundary",
            _ => "programmable",
        };
        format!("filters.{}.{}", k, self.name)
    }
}
impl Source_ {
    fn path(&self) -> String {
        let k = match self.kind {
            Sk::Statsd => "statsd",
            Sk::Graphite => "graphite",
            Sk::Native => "native",
            Sk::File => "files",
            Sk::Avro => "avro",
        };
        format!("sources.{}.{}", k, self.name)
    }
}

fn wall() -> i64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64
}

fn quoted(v: &[String]) -> String {
    v.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(", ")
}

/// A running cernan; killed when dropped.
struct Proc {
    c: Child,
}
impl Proc {
    fn start(dir: &Path) -> Proc {
        let bin = std::env::current_exe().unwrap().parent().unwrap().join("cernan-e2e");
        let mut cmd = Command::new(bin);
        cmd.arg("-C")
            .arg(dir.join("cernan.toml"))
            .current_dir(dir)
            .stdin(Stdio::null())
            .stdout(fs::File::create(dir.join("out")).unwrap())
            .stderr(fs::File::create(dir.join("err")).unwrap());
        unsafe {
            cmd.pre_exec(|| {
                // it goes when the check goes
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        Proc { c: cmd.spawn().expect("cernan-e2e") }
    }
    fn pid(&self) -> u32 {
        self.c.id()
    }
    fn term(&self) {
        unsafe {
            libc::kill(self.c.id() as i32, libc::SIGTERM);
        }
    }
    fn exit(&mut self, wait: Duration) -> Option<i32> {
        let start = Instant::now();
        loop {
            if let Ok(Some(st)) = self.c.try_wait() {
                return Some(st.code().unwrap_or(-1));
            }
            if start.elapsed() > wait {
                return None;
            }
            thread::sleep(Duration::from_millis(1));
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}

/// (local port, state, bytes not yet read) of the sockets in a table of /proc/net
pub fn table(proto: &str) -> Vec<(u16, u32, u64)> {
    let t = fs::read_to_string(format!("/proc/net/{}", proto)).unwrap_or_default();
    t.lines()
        .skip(1)
        .filter_map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            let port = u16::from_str_radix(f.get(1)?.rsplit(':').next()?, 16).ok()?;
            let st = u32::from_str_radix(f.get(3)?, 16).ok()?;
            let rx = u64::from_str_radix(f.get(4)?.split(':').nth(1)?, 16).ok()?;
            Some((port, st, rx))
        })
        .collect()
}
pub const LISTEN: u32 = 10;
const ESTABLISHED: u32 = 1;
const CLOSE_WAIT: u32 = 8;

/// how far the process has read the file; None while it is not open
fn read_to(pid: u32, p: &Path) -> Option<u64> {
    for e in fs::read_dir(format!("/proc/{}/fd", pid)).ok()? {
        let e = match e {
            Ok(e) => e,
            Err(_) => continue,
        };
        if fs::read_link(e.path()).map(|l| l == p).unwrap_or(false) {
            let i = fs::read_to_string(format!("/proc/{}/fdinfo/{}", pid, e.file_name().to_string_lossy())).ok()?;
            return i.lines().next()?.split_whitespace().nth(1)?.parse().ok();
        }
    }
    None
}

/// collects what is sent to a port
pub struct Sinkhole {
    pub buf: Arc<Mutex<Vec<u8>>>,
    stop: Arc<AtomicBool>,
    th: Option<thread::JoinHandle<()>>,
}
impl Sinkhole {
    pub fn new(port: u16) -> Sinkhole {
        let l = TcpListener::bind(("127.0.0.1", port)).expect("endpoint");
        l.set_nonblocking(true).unwrap();
        let buf = Arc::new(Mutex::new(vec![]));
        let stop = Arc::new(AtomicBool::new(false));
        let (b, st) = (Arc::clone(&buf), Arc::clone(&stop));
        let th = thread::spawn(move || {
            let mut cs: Vec<TcpStream> = vec![];
            let mut chunk = vec![0; 65536];
            loop {
                let mut n = 0;
                if let Ok((c, _)) = l.accept() {
                    c.set_nonblocking(true).unwrap();
                    cs.push(c);
                    n = 1;
                }
                for c in cs.iter_mut() {
                    if let Ok(k) = c.read(&mut chunk) {
                        n += k;
                        b.lock().unwrap().extend_from_slice(&chunk[..k]);
                    }
                }
                if n == 0 {
                    if st.load(Ordering::SeqCst) {
                        return;
                    }
                    thread::sleep(Duration::from_millis(1));
                }
            }
        });
        Sinkhole { buf, stop, th: Some(th) }
    }
    fn have(&self) -> usize {
        self.buf.lock().unwrap().len()
    }
    /// everything, once nothing more comes
    fn end(&mut self) -> Vec<u8> {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
        self.buf.lock().unwrap().clone()
    }
}
impl Drop for Sinkhole {
    fn drop(&mut self) {
        self.end();
    }
}

fn some<T: Clone>(s: &mut Src, xs: &[T], lo: usize) -> Vec<T> {
    let mut left = xs.to_vec();
    let n = match s.weighted(&[6, 3, 1]) {
        0 => 1,
        1 => 2,
        _ => 4,
    };
    let n = n.max(lo).min(left.len());
    let mut out = vec![];
    for _ in 0..n {
        let i = s.draw(left.len() as u64) as usize;
        out.push(left.remove(i));
    }
    out
}

/// `few`: few parts, so that each depends on one other
fn plan(s: &mut Src, w: usize, now: i64, few: bool) -> Plan {
    let mut sinks: Vec<Snk> = if few { vec![s.pick(&SINKS), Snk::Console] } else { vec![] };
    if few {
        sinks.dedup();
        if s.chance(1, 2) {
            sinks.truncate(1);
        }
    }
    for (i, k) in SINKS.iter().enumerate() {
        if !few && s.chance(if i < 3 { 1 } else { 2 }, if i < 3 { 2 } else { 5 }) {
            sinks.push(*k);
        }
    }
    if sinks.is_empty() {
        sinks.push(Snk::Console);
    }
    let nf = if few { s.weighted(&[4, 2, 1]) } else { s.weighted(&[3, 3, 2, 1, 1]) };
    let total = nf + sinks.len();
    let mut filters = vec![];
    for i in 0..nf {
        let kind = match s.weighted(&[3, 2, 2, 2, 1, 1, 1]) {
            0 => Flt::Delay(s.pick(&[200, 20_000, 10_000_000])),
            1 => Flt::Json,
            2 => Flt::Boundary(s.pick(&[0, 1, 5, 20, 1000])),
            3 => Flt::Tag(format!("p{}", i)),
            4 => Flt::DropMetrics,
            5 => Flt::DropLogs,
            _ => Flt::Pass,
        };
        let later: Vec<usize> = (i + 1..total).collect();
        let to = if s.chance(1, 12) { vec![] } else { some(s, &later, 1) };
        filters.push(Filter { kind, name: format!("{}{}", s.pick(&["f", "a-b", "x_"]), i), to });
    }
    let nodes: Vec<usize> = (0..total).collect();
    let mut sources = vec![];
    let ns = if few { s.usize(1, 2) } else { s.usize(1, 4) };
    for i in 0..ns {
        let kind = if few {
            s.pick(&[Sk::Statsd, Sk::Graphite, Sk::Native, Sk::File, Sk::Avro])
        } else {
            s.pick(&[Sk::Statsd, Sk::Graphite, Sk::Native, Sk::File, Sk::Avro, Sk::Statsd, Sk::Graphite])
        };
        let to = some(s, &nodes, 1);
        let mut evs = vec![];
        // now and then so many that the queues go to disk
        let n = if few {
            s.usize(2, 6)
        } else if s.chance(1, 15) {
            s.usize(100, 400)
        } else {
            s.usize(0, 6)
        };
        for j in 0..n {
            let off = s.pick(&[0, -50, -5_000, -500_000, 500_000]);
            let ts = now + off;
            let mut e = Ev { what: What::Log(String::new()), name: format!("s{}_{}", i, j), tags: Tags::new(), ts: Some(ts), bytes: vec![] };
            match kind {
                Sk::Statsd => {
                    e.ts = None;
                    let v = exact(s);
                    match s.weighted(&[3, 2, 2]) {
                        0 => {
                            e.name = format!("s{}_c{}", i, s.draw(3));
                            e.bytes = format!("{}:{}|c\n", e.name, v).into_bytes();
                            e.what = What::Point { kind: A::Sum, vals: vec![v], persist: false };
                        }
                        1 => {
                            e.bytes = format!("{}:{}|g\n", e.name, v.abs()).into_bytes();
                            e.what = What::Point { kind: A::Set, vals: vec![v.abs()], persist: true };
                        }
                        _ => {
                            e.bytes = format!("{}:{}|ms\n", e.name, v).into_bytes();
                            e.what = What::Point { kind: A::Summarize, vals: vec![v], persist: false };
                        }
                    }
                }
                Sk::Graphite => {
                    let v = exact(s);
                    e.bytes = format!("{} {} {}\n", e.name, v, ts).into_bytes();
                    e.what = What::Point { kind: A::Set, vals: vec![v], persist: false };
                }
                Sk::Native => {
                    let mut m = vec![];
                    e.tags = tags(s, 2);
                    if s.chance(1, 3) {
                        let text = format!("L{}_{} {}", i, j, s.pick(&["x", "a b c", "{\"k\": 1}"]));
                        bytes_field(1, e.name.as_bytes(), &mut m);
                        bytes_field(2, text.as_bytes(), &mut m);
                        map_field(3, &e.tags, s, &mut m);
                        field(4, 0, &mut m);
                        varint((ts * 1000) as u64, &mut m);
                        e.what = What::Log(text);
                        let mut p = vec![];
                        bytes_field(3, &m, &mut p);
                        e.bytes = framed(&p);
                    } else {
                        let kind = s.pick(&[A::Set, A::Sum, A::Summarize]);
                        let persist = kind == A::Set && s.chance(1, 3);
                        let vals: Vec<f64> = (0..if kind == A::Summarize { s.usize(1, 4) } else { 1 }).map(|_| exact(s)).collect();
                        bytes_field(1, e.name.as_bytes(), &mut m);
                        let mut b = vec![];
                        for v in &vals {
                            b.extend_from_slice(&v.to_bits().to_le_bytes());
                        }
                        bytes_field(2, &b, &mut m);
                        field(3, 0, &mut m);
                        varint(persist as u64, &mut m);
                        field(4, 0, &mut m);
                        varint(method_no(kind), &mut m);
                        map_field(5, &e.tags, s, &mut m);
                        field(6, 0, &mut m);
                        varint((ts * 1000) as u64, &mut m);
                        e.what = What::Point { kind, vals, persist };
                        let mut p = vec![];
                        bytes_field(2, &m, &mut p);
                        e.bytes = framed(&p);
                    }
                }
                Sk::File => {
                    e.ts = None;
                    let text = format!("L{}_{} {}", i, j, s.pick(&["x", "a b c", "{\"k\": 1}"]));
                    e.bytes = format!("{}\n", text).into_bytes();
                    e.what = What::Log(text);
                }
                Sk::Avro => {
                    let (mut b, p) = publication(s);
                    // whether it asks for an answer is decided later
                    b[7] &= 0xfe;
                    let id = (i * 1000 + j) as u64;
                    b[8..16].copy_from_slice(&id.to_be_bytes());
                    e.what = What::Raw(p.blob);
                    e.bytes = framed(&b);
                }
            }
            evs.push(e);
        }
        let port = if kind == Sk::File { 0 } else { port(w) };
        sources.push(Source_ { kind, name: format!("{}{}", s.pick(&["s", "primary", "x-y_"]), i), to, port, evs });
    }
    Plan { tags: if s.chance(1, 2) { tags(s, 2) } else { Tags::new() }, filters, sinks, sources }
}

/// the tables of the document, in an order of their own
fn document(s: &mut Src, p: &Plan, dir: &Path, ports: &BTreeMap<Snk, u16>, interval: u64, internal: Option<usize>, spill: bool, bad: &Option<(String, String)>) -> String {
    let mut head = format!("data-directory = {:?}\nscripts-directory = {:?}\nflush-interval = {}\n", dir.join("data").to_str().unwrap(), dir.to_str().unwrap(), interval);
    if spill {
        head.push_str(&format!("max-hopper-in-memory-bytes = {}\n", s.pick(&[3usize, 10, 30]) * std::mem::size_of::<Event>()));
    }
    let mut tables: Vec<String> = vec![];
    if !p.tags.is_empty() {
        tables.push(format!("[tags]\n{}", p.tags.iter().map(|(k, v)| format!("{:?} = {:?}\n", k, v)).collect::<String>()));
    }
    let fwd = |who: &str, to: &[usize]| {
        let mut v: Vec<String> = to.iter().map(|t| p.node(*t)).collect();
        if let Some((ref b, ref to)) = *bad {
            if b == who {
                v.push(to.clone());
            }
        }
        format!("forwards = [{}]\n", quoted(&v))
    };
    for f in &p.filters {
        let mut t = format!("[{}]\n", f.path());
        match f.kind {
            Flt::Delay(x) => t.push_str(&format!("tolerance = {}\n", x)),
            Flt::Json => t.push_str("parse_line = false\n"),
            Flt::Boundary(x) => t.push_str(&format!("tolerance = {}\n", x)),
            ref k => {
                let (m, l) = match *k {
                    Flt::Tag(ref k) => (
                        format!("payload.metric_set_tag(pyld, 1, \"{}\", \"1\")", k),
                        format!("payload.log_set_tag(pyld, 1, \"{}\", \"1\")", k),
                    ),
                    Flt::DropMetrics => ("payload.clear_metrics(pyld)".to_string(), String::new()),
                    Flt::DropLogs => (String::new(), "payload.clear_logs(pyld)".to_string()),
                    _ => (String::new(), String::new()),
                };
                let script = format!("{}.lua", f.name);
                fs::write(
                    dir.join(&script),
                    format!("function process_metric(pyld)\n{}\nend\nfunction process_log(pyld)\n{}\nend\nfunction tick(pyld)\nend\n", m, l),
                )
                .unwrap();
                t.push_str(&format!("script = {:?}\n", script));
            }
        }
        t.push_str(&fwd(&f.path(), &f.to));
        tables.push(t);
    }
    for x in &p.sources {
        let mut t = format!("[{}]\n", x.path());
        match x.kind {
            Sk::File => t.push_str(&format!("path = {:?}\n", file_of(dir, x).to_str().unwrap())),
            Sk::Native => t.push_str(&format!("ip = \"127.0.0.1\"\nport = {}\n", x.port)),
            _ => t.push_str(&format!("enabled = true\nhost = \"127.0.0.1\"\nport = {}\n", x.port)),
        }
        t.push_str(&fwd(&x.path(), &x.to));
        tables.push(t);
    }
    if let Some(i) = internal {
        tables.push(format!("[sources.internal]\n{}", fwd("sources.internal", &[i])));
    }
    for k in &p.sinks {
        let at = ports.get(k).cloned().unwrap_or(0);
        let mut t = format!("[{}]\n", k.path());
        match *k {
            Snk::Console | Snk::Null => {}
            Snk::Native | Snk::Prom => t.push_str(&format!("host = \"127.0.0.1\"\nport = {}\n", at)),
            Snk::Wave => t.push_str(&format!("host = \"127.0.0.1\"\nport = {}\nbin_width = 1\n", at)),
            Snk::Influx => t.push_str(&format!("host = \"127.0.0.1\"\nport = {}\ndb = \"d\"\nsecure = false\n", at)),
            Snk::Elastic => t.push_str(&format!("host = \"127.0.0.1\"\nport = {}\n", at)),
            Snk::Kafka => t.push_str(&format!("topic = \"t\"\nbrokers = \"127.0.0.1:{}\"\n[sinks.kafka.k1.librdkafka]\n\"queue.buffering.max.ms\" = 0\n\"batch.num.messages\" = 1\n\"socket.blocking.max.ms\" = 1\n", at)),
        }
        tables.push(t);
    }
    let mut out = head;
    while !tables.is_empty() {
        let i = s.draw(tables.len() as u64) as usize;
        out.push_str(&tables.remove(i));
    }
    out
}

fn file_of(dir: &Path, x: &Source_) -> PathBuf {
    dir.join(format!("{}.log", x.name))
}

struct Got {
    name: String,
    tags: Tags,
    kind: String,
    ts: i64,
    vals: Vec<f64>,
}

fn with(a: &Tags, over: &Tags) -> Tags {
    let mut t = a.clone();
    t.extend(over.iter().map(|(k, v)| (k.clone(), v.clone())));
    t
}

fn e2e(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, false)
}

fn pulse(s: &mut Src, c: &mut Ctx) -> Res {
    run(s, c, true)
}

fn run(s: &mut Src, c: &mut Ctx, few: bool) -> Res {
    let t0 = wall();
    let p = plan(s, c.worker, t0, few);
    let tmp = TempDir::new("vhe").expect("scratch directory");
    let dir = tmp.path().to_path_buf();
    fs::create_dir(dir.join("data")).unwrap();
    let mut ports = BTreeMap::new();
    for k in &p.sinks {
        if *k != Snk::Console && *k != Snk::Null {
            ports.insert(*k, port(c.worker));
        }
    }
    let internal = if !few && s.chance(1, 4) { Some(s.draw(p.nodes() as u64) as usize) } else { None };
    let live = few || s.chance(1, 10);
    let spill = s.chance(1, 4);
    let bad = if !few && s.chance(1, 12) {
        let mut who: Vec<String> = p.sources.iter().map(|x| x.path()).chain(p.filters.iter().map(|x| x.path())).collect();
        if internal.is_some() {
            who.push("sources.internal".into());
        }
        let mut to = vec!["sinks.nope".to_string(), "filters.delay.nope".to_string(), "nope".to_string(), p.sources[0].path()];
        to.extend(SINKS.iter().filter(|k| !p.sinks.contains(k)).map(|k| k.path().to_string()));
        Some((s.pick(&who), s.pick(&to)))
    } else {
        None
    };
    // publications which ask for an answer need a kafka sink that acknowledges
    // them, and a flush of it
    let mut syncs: Vec<Vec<bool>> = vec![];
    let mut p = p;
    for i in 0..p.sources.len() {
        let n: usize = p.sources[i].to.iter().map(|t| p.reaches(*t, Snk::Kafka)).sum();
        let mut v = vec![];
        let avro = p.sources[i].kind == Sk::Avro;
        for e in p.sources[i].evs.iter_mut() {
            let sync = avro && live && n == 1 && s.chance(1, 2);
            if sync {
                e.bytes[4 + 7] |= 1;
            }
            v.push(sync);
        }
        syncs.push(v);
    }
    let p = p;
    let asks = syncs.iter().any(|v| v.iter().any(|x| *x));
    let interval = if live || s.chance(1, 3) { 1 } else { 60 };
    let doc = document(s, &p, &dir, &ports, interval, internal, spill, &bad);
    fs::write(dir.join("cernan.toml"), &doc).unwrap();
    for x in &p.sources {
        if x.kind == Sk::File {
            fs::write(file_of(&dir, x), if s.chance(1, 3) { &b"an old line\n"[..] } else { &b""[..] }).unwrap();
        }
    }

    // the world outside
    let tap = Tap::new();
    let mut peer = ports.get(&Snk::Native).map(|port| {
        NativeServer::new(
            tap.chans(),
            NativeServerConfig { ip: "127.0.0.1".to_string(), port: *port, forwards: vec![], config_path: Some("n".to_string()) }.into(),
        )
        .run()
    });
    let influx = ports.get(&Snk::Influx).map(|p| Mock::new(*p, Box::new(|_| Ans::Reply(204, String::new()))));
    let elastic = ports.get(&Snk::Elastic).map(|p| {
        Mock::new(
            *p,
            Box::new(|b| {
                let ids = ids_of(b);
                let v = ids.iter().map(|i| (i.clone(), 201u16)).collect();
                Ans::Reply(200, bulk_answer(&ids, &v, 0))
            }),
        )
    });
    let mut wave = ports.get(&Snk::Wave).map(|p| Sinkhole::new(*p));
    let stop = Arc::new(AtomicBool::new(false));
    let topic = Arc::new(Mutex::new(Shared { script: HashMap::new(), seen: vec![], conns: vec![], bad: vec![] }));
    let kafka = ports.get(&Snk::Kafka).map(|p| {
        let l = TcpListener::bind(("127.0.0.1", *p)).expect("broker port");
        let (sh, st, p) = (Arc::clone(&topic), Arc::clone(&stop), *p);
        thread::spawn(move || broker(l, p, sh, st))
    });

    let mut pr = Proc::start(&dir);
    let mut log = vec![];
    let r = body(s, c, &p, &dir, &mut pr, &tap, &influx, &elastic, &mut wave, &topic, &ports, internal.is_some(), live, &syncs, bad.is_some(), &mut log, &doc, t0);
    drop(pr);
    if let Some(t) = peer.take() {
        let _ = join_within(Duration::from_secs(10), move || t.shutdown());
    }
    stop.store(true, Ordering::SeqCst);
    if let Some(t) = kafka {
        let _ = t.join();
    }
    if let Err(mut f) = r {
        let err = fs::read_to_string(dir.join("err")).unwrap_or_default();
        f.msg.push_str(&format!("\n{}\n--- configuration\n{}\n--- stderr\n{}", log.join("\n"), doc, &err[..err.len().min(1000)]));
        return Err(f);
    }
    c.label_if(p.filters.len() > 1, "several-filters");
    c.label_if(spill, "queues-on-disk");
    c.label_if(live, "periodic-flush");
    c.label_if(bad.is_some(), "invalid-forward");
    c.label_if(asks, "acknowledged-publication");
    c.sample(|| format!("{}; {}", doc.replace('\n', " "), log.join("; ")));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn body(
    s: &mut Src,
    c: &mut Ctx,
    p: &Plan,
    dir: &Path,
    pr: &mut Proc,
    tap: &Tap,
    influx: &Option<Mock>,
    elastic: &Option<Mock>,
    wave: &mut Option<Sinkhole>,
    topic: &Arc<Mutex<Shared>>,
    ports: &BTreeMap<Snk, u16>,
    internal: bool,
    live: bool,
    syncs: &[Vec<bool>],
    bad: bool,
    log: &mut Vec<String>,
    _doc: &str,
    t0: i64,
) -> Res {
    let long = Duration::from_secs(30);
    if bad {
        let e = pr.exit(long);
        ensure!(e.is_some(), "e2e-bad-forward", "started in spite of a forward that does not exist");
        ensure!(e != Some(0) && e != Some(-1), "e2e-bad-forward", "a forward that does not exist ends it with {:?}", e);
        c.nontrivial = true;
        return Ok(());
    }
    // ready: every source is there
    let pid = pr.pid();
    let up = eventually(long, || {
        let (u, t) = (table("udp"), table("tcp"));
        p.sources.iter().all(|x| match x.kind {
            Sk::Statsd => u.iter().any(|e| e.0 == x.port),
            Sk::File => {
                let f = file_of(dir, x);
                read_to(pid, &f) == fs::metadata(&f).ok().map(|m| m.len())
            }
            _ => t.iter().any(|e| e.0 == x.port && e.1 == LISTEN),
        })
    });
    let dead = pr.exit(Duration::from_millis(0));
    ensure!(dead.is_none(), "e2e-start", "ended at once with {:?}", dead);
    ensure!(up, "e2e-start", "not every source is up after {:?}", long);

    // feed the sources
    let udp = UdpSocket::bind("127.0.0.1:0").unwrap();
    let mut socks: Vec<(usize, TcpStream)> = vec![];
    let mut order: Vec<(usize, usize)> = vec![];
    {
        let mut next: Vec<usize> = vec![0; p.sources.len()];
        loop {
            let left: Vec<usize> = (0..next.len()).filter(|i| next[*i] < p.sources[*i].evs.len()).collect();
            if left.is_empty() {
                break;
            }
            let i = if p.sources.iter().map(|x| x.evs.len()).sum::<usize>() > 60 { left[0] } else { left[s.draw(left.len() as u64) as usize] };
            order.push((i, next[i]));
            next[i] += 1;
        }
    }
    let mut answers: Vec<(usize, u64)> = vec![];
    for (i, j) in order {
        let x = &p.sources[i];
        let e = &x.evs[j];
        if log.len() < 40 {
            log.push(format!("{} gets {} {:?}", x.path(), e.name, e.what));
        }
        match x.kind {
            Sk::Statsd => {
                udp.send_to(&e.bytes, ("127.0.0.1", x.port)).expect("datagram");
                if j % 20 == 19 {
                    // loopback drops what the socket has no room for
                    eventually(long, || table("udp").iter().all(|e| e.0 != x.port || e.2 == 0));
                }
            }
            Sk::File => {
                let mut f = fs::OpenOptions::new().append(true).open(file_of(dir, x)).unwrap();
                f.write_all(&e.bytes).unwrap();
            }
            _ => {
                // a second connection now and then
                let fresh = socks.iter().all(|x| x.0 != i) || (x.evs.len() < 50 && s.chance(1, 8));
                if fresh {
                    let t = TcpStream::connect(("127.0.0.1", x.port)).expect("connection to a source");
                    let _ = t.set_nodelay(true);
                    socks.push((i, t));
                }
                let t = &mut socks.iter_mut().rev().find(|x| x.0 == i).unwrap().1;
                if t.write_all(&e.bytes).is_err() {
                    return fail("e2e-refused", format!("{} has closed the connection", x.path()));
                }
                if syncs[i][j] {
                    t.set_read_timeout(Some(long)).unwrap();
                    let mut a = [0; 8];
                    if let Err(e) = t.read_exact(&mut a) {
                        return fail("e2e-ack", format!("publication {} of {} is not answered: {}", j, x.path(), e));
                    }
                    ensure!(a == ((i * 1000 + j) as u64).to_be_bytes(), "e2e-ack", "publication {} of {} is answered with {:?}", j, x.path(), a);
                    answers.push((i, j as u64));
                }
            }
        }
    }
    for (_, t) in &socks {
        if s.chance(1, 3) {
            let _ = t.shutdown(Shutdown::Write);
        }
    }
    // accepted: nothing is left unread
    let read = eventually(long, || {
        let (u, t) = (table("udp"), table("tcp"));
        p.sources.iter().all(|x| match x.kind {
            Sk::Statsd => u.iter().all(|e| e.0 != x.port || e.2 == 0),
            Sk::File => {
                let f = file_of(dir, x);
                read_to(pid, &f) == fs::metadata(&f).ok().map(|m| m.len())
            }
            _ => t.iter().all(|e| e.0 != x.port || e.1 == LISTEN || e.2 == 0),
        })
    });
    ensure!(read, "e2e-unread", "a source does not read what it is sent");

    // what should arrive
    let now = t0;
    let all = p.copies(now);
    let at = |k: Snk| -> Vec<&Copy_> { all.iter().filter(|x| x.0 == k).map(|x| &x.1).collect() };
    let mut bodies: Vec<u8> = vec![];
    let mut bulk: Vec<Vec<u8>> = vec![];
    let mut through: Vec<Event> = vec![];
    let gather = |bodies: &mut Vec<u8>, bulk: &mut Vec<Vec<u8>>, through: &mut Vec<Event>| {
        if let Some(ref m) = *influx {
            for x in m.seen() {
                bodies.extend_from_slice(&x.body);
            }
        }
        if let Some(ref m) = *elastic {
            bulk.extend(m.seen().into_iter().filter(|x| !x.body.is_empty()).map(|x| x.body));
        }
        through.extend(tap.now());
    };
    let is_point = |x: &&Copy_| if let What::Point { .. } = x.ev.what { true } else { false };
    let is_log = |x: &&Copy_| if let What::Log(_) = x.ev.what { !x.json } else { false };

    // prometheus is scraped while it runs
    if ports.contains_key(&Snk::Prom) {
        let port = ports[&Snk::Prom];
        let mut want: BTreeMap<String, f64> = BTreeMap::new();
        let mut sets: BTreeMap<String, f64> = BTreeMap::new();
        for x in at(Snk::Prom) {
            if let What::Point { kind, ref vals, persist } = x.ev.what {
                if x.ev.ts.is_some() || x.held {
                    // possibly too old, or held for longer than the case takes
                    continue;
                }
                if kind == A::Sum {
                    *want.entry(x.ev.name.clone()).or_insert(0.0) += vals[0];
                } else if kind == A::Set && persist {
                    sets.insert(x.ev.name.clone(), vals[0]);
                }
            }
        }
        // a counter partly held is not judged
        for x in at(Snk::Prom) {
            if x.held {
                want.remove(&x.ev.name);
            }
        }
        let mut last = String::new();
        let ok = eventually(long, || {
            let r = match http_get(port, "/metrics", Duration::from_secs(10)) {
                Ok(r) => r,
                Err(e) => {
                    last = e;
                    return false;
                }
            };
            let text = String::from_utf8_lossy(&r.body).to_string();
            let f = match exposition(&text) {
                Ok(f) => f,
                Err(e) => {
                    last = format!("{:?}", e);
                    return false;
                }
            };
            last = text;
            let sum = |n: &String| f.get(n).map(|x| x.samples.values().sum::<f64>());
            want.iter().all(|(n, v)| sum(n).map_or(false, |g| close(g, *v)))
                && sets.iter().all(|(n, v)| f.get(n).map_or(false, |x| x.samples.values().all(|g| g == v)))
        });
        ensure!(ok, "e2e-prometheus", "expected {:?} {:?}, scraped {}", want, sets, last);
        c.label_if(!want.is_empty(), "scraped");
    }
    if live {
        // everything goes out without being told to terminate
        let n_native = at(Snk::Native).iter().filter(|x| (is_point(x) || is_log(x)) && !x.held).count();
        let n_influx = at(Snk::Influx).iter().filter(|x| is_point(x) && !x.held).count();
        let n_wave = at(Snk::Wave).iter().filter(|x| is_point(x) && !x.held).count();
        let n_es = at(Snk::Elastic).iter().filter(|x| is_log(x) && !x.held).count();
        let cons: Vec<String> = at(Snk::Console).iter().filter(|x| (is_point(x) || is_log(x)) && !x.held).map(|x| x.ev.name.clone()).collect();
        let files: Vec<String> = at(Snk::Console)
            .iter()
            .filter(|x| is_log(x) && !x.held)
            .map(|x| if let What::Log(ref t) = x.ev.what { t.clone() } else { String::new() })
            .collect();
        let out = dir.join("out");
        let ok = eventually(long, || {
            gather(&mut bodies, &mut bulk, &mut through);
            let text = String::from_utf8_lossy(&fs::read(&out).unwrap_or_default()).to_string();
            through.iter().filter(|e| mine(e)).count() >= n_native
                && (n_influx == 0 || bodies.split(|b| *b == b'\n').filter(|l| !l.is_empty() && !l.starts_with(b"cernan.")).count() >= n_influx)
                && (n_wave == 0 || wave.as_ref().map_or(0, |w| w.have()) > 0)
                && (n_es == 0 || bulk.iter().map(|b| b.iter().filter(|c| **c == b'\n').count() / 2).sum::<usize>() >= n_es)
                && (cons.iter().all(|n| n.is_empty() || !n.starts_with('s') || text.contains(n.as_str()) || !files.is_empty()))
                && files.iter().all(|t| text.contains(t.as_str()))
        });
        ensure!(
            ok,
            "e2e-live",
            "after {:?} with a flush each second: {} of {} events at the native sink, {} lines of {} points at influxdb, {} bytes of {} points at wavefront, {} requests of {} lines at elasticsearch; on the console {:?} {:?} expected",
            long, through.len(), n_native, bodies.split(|b| *b == b'\n').count(), n_influx, wave.as_ref().map_or(0, |w| w.have()), n_wave, bulk.len(), n_es, cons, files
        );
    } else if s.chance(1, 2) {
        thread::sleep(Duration::from_millis(s.draw(30)));
    }
    // traffic that goes on while it terminates
    let late_src = if s.chance(1, 3) { p.sources.iter().position(|x| x.kind == Sk::Graphite) } else { None };
    let late_n = Arc::new(Mutex::new(0u64));
    let late = late_src.map(|i| {
        let port = p.sources[i].port;
        let n = Arc::clone(&late_n);
        thread::spawn(move || {
            let mut t = match TcpStream::connect(("127.0.0.1", port)) {
                Ok(t) => t,
                Err(_) => return,
            };
            let _ = t.set_nodelay(true);
            for k in 0..6_000u64 {
                if t.write_all(format!("late{} {}.25 {}\n", k, k, t0 - 11).as_bytes()).is_err() {
                    return;
                }
                *n.lock().unwrap() = k + 1;
                if k % 4 == 0 {
                    thread::sleep(Duration::from_micros(500));
                }
            }
        })
    });
    if late.is_some() {
        thread::sleep(Duration::from_millis(s.draw(10)));
    }
    pr.term();
    let code = pr.exit(Duration::from_secs(60));
    let t1 = wall();
    if let Some(t) = late {
        let _ = t.join();
    }
    let err = fs::read_to_string(dir.join("err")).unwrap_or_default();
    let heard = {
        let t = topic.lock().unwrap();
        (t.bad.clone(), t.seen.len())
    };
    ensure!(code.is_some(), "e2e-hang", "does not exit; malformed requests at the broker: {:?}, records {}", heard.0, heard.1);
    ensure!(!err.contains("panicked"), "e2e-panic", "a thread panicked");
    ensure!(code == Some(0), "e2e-exit", "exits with {:?}", code);

    // the native source of the check may still be reading
    let n_native = at(Snk::Native).iter().filter(|x| is_point(x) || is_log(x)).count();
    if ports.contains_key(&Snk::Native) {
        let port = ports[&Snk::Native];
        eventually(long, || {
            gather(&mut bodies, &mut bulk, &mut through);
            table("tcp").iter().all(|e| e.0 != port || (e.1 != ESTABLISHED && e.1 != CLOSE_WAIT))
        });
        eventually(Duration::from_secs(5), || {
            gather(&mut bodies, &mut bulk, &mut through);
            through.iter().filter(|e| mine(e)).count() >= n_native
        });
        if late_src.is_some() {
            thread::sleep(Duration::from_millis(50));
        }
    }
    gather(&mut bodies, &mut bulk, &mut through);

    let in_time = |want: Option<i64>, got: i64| match want {
        Some(t) => t == got,
        None => t0 - 2 <= got && got <= t1 + 2,
    };
    let ours = |n: &str| !(internal && n.starts_with("cernan."));
    let mut judged = 0;

    // native: exactly the events
    if ports.contains_key(&Snk::Native) {
        let mut got: Vec<Got> = vec![];
        let mut lates = vec![];
        for e in &through {
            match *e {
                Event::Telemetry(ref t) if t.name.starts_with("late") => lates.push((t.name.clone(), t.set().unwrap_or(-1.0), t.timestamp)),
                Event::Telemetry(ref t) => got.push(Got {
                    name: t.name.clone(),
                    tags: t.tags(&Default::default()).map(|(k, v)| (k.clone(), v.clone())).collect(),
                    kind: format!("{:?} {}", t.kind(), t.persist),
                    ts: t.timestamp,
                    vals: in_order(t.samples()),
                }),
                Event::Log(ref l) => got.push(Got {
                    name: l.path.clone(),
                    tags: l.tags(&Default::default()).map(|(k, v)| (k.clone(), v.clone())).collect(),
                    kind: format!("line {:?}", l.value),
                    ts: l.time,
                    vals: vec![],
                }),
                _ => {}
            }
        }
        got.retain(|g| ours(&g.name));
        for x in at(Snk::Native) {
            let (name, kind, vals) = match x.ev.what {
                What::Point { kind, ref vals, persist } => (x.ev.name.clone(), format!("{:?} {}", kind, persist), vals.clone()),
                What::Log(ref t) if !x.json => (path_of(p, dir, x), format!("line {:?}", t), vec![]),
                _ => continue,
            };
            let tags = with(&p.tags, &x.tags);
            // a summary keeps its samples in order of size
            let vals = in_order(vals);
            judged += 1;
            match got.iter().position(|g| g.name == name && g.tags == tags && g.kind == kind && in_time(x.ev.ts, g.ts) && g.vals == vals) {
                Some(i) => {
                    got.remove(i);
                }
                None => {
                    return fail(
                        "e2e-native",
                        format!(
                            "{} {} {:?} {:?} at {:?} does not arrive (or not often enough) through the native sink, left is {:?}",
                            name,
                            kind,
                            vals,
                            tags,
                            x.ev.ts,
                            got.iter().map(|g| format!("{} {} {:?} {:?} {}", g.name, g.kind, g.vals, g.tags, g.ts)).collect::<Vec<_>>()
                        ),
                    )
                }
            }
        }
        ensure!(
            got.is_empty(),
            "e2e-native-extra",
            "more than expected through the native sink: {:?}",
            got.iter().map(|g| format!("{} {} {:?} {:?} {}", g.name, g.kind, g.vals, g.tags, g.ts)).collect::<Vec<_>>()
        );
        late_ok(p, late_src, Snk::Native, &lates, t0, *late_n.lock().unwrap())?;
    }
    // influxdb: exactly the points
    if influx.is_some() {
        let mut got = vec![];
        let mut lates = vec![];
        for l in String::from_utf8_lossy(&bodies).split('\n').filter(|l| !l.is_empty()) {
            match influx_line(l) {
                Ok(x) => {
                    if x.name.starts_with("late") {
                        lates.push((x.name.clone(), x.value, x.ts.parse::<i64>().unwrap_or(0) / 1_000_000_000));
                    } else if ours(&x.name) {
                        got.push(x)
                    }
                }
                Err(e) => return fail("e2e-influx", format!("malformed line {:?}: {}", l, e)),
            }
        }
        for x in at(Snk::Influx) {
            if let What::Point { kind, ref vals, persist } = x.ev.what {
                let pt = Pt { name: x.ev.name.clone(), kind, tags: x.tags.clone(), ts: x.ev.ts.unwrap_or(0), persist, vals: vals.clone(), bounds: None, error: None };
                for (name, tags, want, ts) in influx_want(&pt, &p.tags) {
                    judged += 1;
                    let now = x.ev.ts.is_none();
                    match got.iter().position(|g| {
                        g.name == name && g.tags == tags && want.ok(g.value) && if now { in_time(None, g.ts.parse::<i64>().unwrap_or(0) / 1_000_000_000) } else { g.ts == ts }
                    }) {
                        Some(i) => {
                            got.remove(i);
                        }
                        None => return fail("e2e-influx", format!("{} {:?} {:?} does not arrive (or not often enough) at influxdb, left is {:?}", name, tags, want, got)),
                    }
                }
            }
        }
        ensure!(got.is_empty(), "e2e-influx-extra", "more than expected at influxdb: {:?}", got);
        late_ok(p, late_src, Snk::Influx, &lates, t0, *late_n.lock().unwrap())?;
    }
    // elasticsearch: exactly the lines
    if elastic.is_some() {
        let mut got: Vec<(String, String, Tags)> = vec![];
        for b in &bulk {
            for (i, l) in String::from_utf8_lossy(b).split('\n').enumerate() {
                if i % 2 == 1 && !l.is_empty() {
                    let v: serde_json::Value = match serde_json::from_str(l) {
                        Ok(v) => v,
                        Err(e) => return fail("e2e-elastic", format!("malformed document {:?}: {}", l, e)),
                    };
                    let mut t = Tags::new();
                    for (k, x) in v.as_object().unwrap() {
                        if !["uuid", "path", "payload", "timestamp"].contains(&k.as_str()) {
                            t.insert(k.clone(), x.as_str().unwrap_or("?").to_string());
                        }
                    }
                    got.push((v["path"].as_str().unwrap_or("?").to_string(), v["payload"].as_str().unwrap_or("?").to_string(), t));
                }
            }
        }
        for x in at(Snk::Elastic) {
            if let What::Log(ref t) = x.ev.what {
                if x.json {
                    continue;
                }
                judged += 1;
                let w = (path_of(p, dir, x), t.clone(), with(&p.tags, &x.tags));
                match got.iter().position(|g| *g == w) {
                    Some(i) => {
                        got.remove(i);
                    }
                    None => return fail("e2e-elastic", format!("{:?} does not arrive (or not often enough) at elasticsearch, left is {:?}", w, got)),
                }
            }
        }
        ensure!(got.is_empty(), "e2e-elastic-extra", "more than expected at elasticsearch: {:?}", got);
    }
    // kafka: exactly the raw events
    if ports.contains_key(&Snk::Kafka) {
        let mut sh = topic.lock().unwrap();
        ensure!(sh.bad.is_empty(), "e2e-kafka", "malformed requests {:?}", sh.bad);
        let mut got: Vec<Vec<u8>> = sh.seen.drain(..).filter_map(|x| x.value).collect();
        for x in at(Snk::Kafka) {
            let i = match x.ev.what {
                What::Raw(ref b) => got.iter().position(|g| g == b),
                What::Log(ref t) if x.json => {
                    let path = path_of(p, dir, x);
                    got.iter().position(|g| {
                        serde_json::from_slice::<serde_json::Value>(g)
                            .ok()
                            .map_or(false, |v| v["message"].as_str() == Some(t) && v["path"].as_str() == Some(&path))
                    })
                }
                _ => continue,
            };
            judged += 1;
            match i {
                Some(i) => {
                    got.remove(i);
                }
                None => {
                    return fail(
                        "e2e-kafka",
                        format!("{:?} does not arrive (or not often enough) at kafka, left is {:?}", x.ev.what, got.iter().map(|g| String::from_utf8_lossy(g).to_string()).collect::<Vec<_>>()),
                    )
                }
            }
        }
        ensure!(got.is_empty(), "e2e-kafka-extra", "more than expected at kafka: {:?}", got.iter().map(|g| String::from_utf8_lossy(g).to_string()).collect::<Vec<_>>());
    }
    // wavefront: aggregates per series
    if let Some(ref mut w) = *wave {
        let text = String::from_utf8_lossy(&w.end()).to_string();
        let mut got: Vec<((String, Tags, i64), f64)> = vec![];
        for l in text.split('\n').filter(|l| !l.is_empty()) {
            match wave_line(l) {
                Ok(x) => {
                    if ours(&(x.0).0) && !(x.0).0.starts_with("late") {
                        got.push(x)
                    }
                }
                Err(e) => return fail("e2e-wavefront", format!("malformed line {:?}: {}", l, e)),
            }
        }
        let pts: Vec<&Copy_> = at(Snk::Wave).into_iter().filter(is_point).collect();
        judged += pts.len();
        aggregates("e2e-wavefront", &pts, &p.tags, true, &mut got.into_iter().map(|(k, v)| (k.0, Some(k.1), Some(k.2), v)).collect(), &in_time)?;
    }
    // console: aggregates per name, lines
    if p.sinks.contains(&Snk::Console) {
        let text = String::from_utf8_lossy(&fs::read(dir.join("out")).unwrap_or_default()).to_string();
        let mut got = vec![];
        let mut section = "";
        for l in text.split('\n') {
            if l.starts_with("  ") && !l.starts_with("    ") {
                section = l.trim().trim_end_matches(':');
            }
            if let Some((k, v)) = crate::p_console::metric_line(if section == "summaries" { "summaries" } else { "x" }, l) {
                let name = k.1.replace(": ", ".");
                if !name.starts_with("late") && ours(&name) {
                    got.push((name, None, k.2, v));
                }
            }
        }
        let cs = at(Snk::Console);
        let pts: Vec<&Copy_> = cs.iter().cloned().filter(is_point).collect();
        judged += pts.len();
        aggregates("e2e-console", &pts, &p.tags, false, &mut got, &in_time)?;
        let mut lines: BTreeMap<String, usize> = BTreeMap::new();
        for x in cs {
            if let What::Log(ref t) = x.ev.what {
                if !x.json {
                    judged += 1;
                    *lines.entry(format!("{}: {}", path_of(p, dir, x), t)).or_insert(0) += 1;
                }
            }
        }
        for (l, n) in &lines {
            let k = text.split('\n').filter(|x| x.ends_with(l.as_str()) || x.contains(&format!("{} ", l))).count();
            ensure!(k == *n, "e2e-console-line", "{:?} is printed {} times, expected {}\n{}", l, k, n, text);
        }
        for e in p.sources.iter().flat_map(|x| x.evs.iter()) {
            if let What::Log(ref t) = e.what {
                ensure!(
                    lines.keys().any(|l| l.ends_with(t.as_str())) || !text.contains(&format!(": {}", t)),
                    "e2e-console-line",
                    "{:?} is printed, which does not go there",
                    t
                );
            }
        }
    }
    c.nontrivial = judged > 2;
    c.label_if(late_src.is_some(), "traffic-during-shutdown");
    c.label_if(answers.len() > 1, "answers");
    c.label_if(judged > 50, "many-events");
    Ok(())
}

fn in_order(mut v: Vec<f64>) -> Vec<f64> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    v
}

fn mine(e: &Event) -> bool {
    match *e {
        Event::Telemetry(ref t) => t.name.starts_with('s'),
        Event::Log(_) => true,
        _ => false,
    }
}

fn path_of(p: &Plan, dir: &Path, x: &Copy_) -> String {
    let src = &p.sources[x.src];
    if src.kind == Sk::File {
        file_of(dir, src).to_str().unwrap().to_string()
    } else {
        x.ev.name.clone()
    }
}

/// What goes on while cernan terminates arrives as far as it was read: the
/// first so many, whole, each as often as there are ways to the sink.
fn late_ok(p: &Plan, src: Option<usize>, k: Snk, got: &[(String, f64, i64)], t0: i64, sent: u64) -> Res {
    let i = match src {
        None => return Ok(()),
        Some(i) => i,
    };
    let ev = Ev { what: What::Point { kind: A::Set, vals: vec![0.0], persist: false }, name: "late".into(), tags: Tags::new(), ts: Some(t0 - 11), bytes: vec![] };
    let mut all = vec![];
    for t in &p.sources[i].to {
        p.walk(*t, Copy_ { src: i, ev: ev.clone(), tags: Tags::new(), json: false, held: false }, t0, &mut all);
    }
    let ways = all.iter().filter(|x| x.0 == k).count();
    let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
    for (n, v, ts) in got {
        let no: u64 = n[4..].parse().unwrap_or(u64::max_value());
        ensure!(no <= sent && *v == no as f64 + 0.25 && *ts == t0 - 11, "e2e-late", "{} {} {} at {:?} was not sent", n, v, ts, k);
        *seen.entry(no).or_insert(0) += 1;
    }
    for (at, (no, n)) in seen.iter().enumerate() {
        ensure!(at as u64 == *no, "e2e-late", "at {:?} number {} of the points sent during shutdown is missing, later ones are there", k, at);
        ensure!(*n == ways, "e2e-late", "at {:?} point {} sent during shutdown comes {} times, expected {}", k, no, n, ways);
    }
    Ok(())
}

/// What an aggregating sink wrote: (name, tags if they are written, time, value)
fn aggregates(
    sig: &str,
    pts: &[&Copy_],
    global: &Tags,
    count: bool,
    got: &mut Vec<(String, Option<Tags>, Option<i64>, f64)>,
    in_time: &dyn Fn(Option<i64>, i64) -> bool,
) -> Res {
    // by name (and tags)
    let mut series: BTreeMap<(String, Option<Tags>), Vec<&Copy_>> = BTreeMap::new();
    for x in pts {
        let tags = if count { Some(with(global, &x.tags)) } else { None };
        series.entry((x.ev.name.clone(), tags)).or_insert_with(Vec::new).push(x);
    }
    let mut known: BTreeSet<String> = BTreeSet::new();
    for ((name, tags), xs) in &series {
        let (kind, vals, persist) = match xs[0].ev.what {
            What::Point { kind, ref vals, persist } => (kind, vals.clone(), persist),
            _ => continue,
        };
        let of = |n: &str, got: &Vec<(String, Option<Tags>, Option<i64>, f64)>| -> Vec<(Option<i64>, f64)> {
            got.iter().filter(|g| g.0 == n && g.1 == *tags).map(|g| (g.2, g.3)).collect()
        };
        match kind {
            A::Sum => {
                let ls = of(name, got);
                let want: f64 = xs.iter().map(|x| if let What::Point { ref vals, .. } = x.ev.what { vals[0] } else { 0.0 }).sum();
                let sum: f64 = ls.iter().map(|x| x.1).sum();
                ensure!(!ls.is_empty() && close(sum, want), sig, "{} {:?} adds up to {} in {:?}, expected {}", name, tags, sum, ls, want);
                for l in &ls {
                    ensure!(l.0.map_or(true, |t| in_time(xs[0].ev.ts, t)), sig, "{} has the time {:?}", name, l.0);
                }
                known.insert(name.clone());
            }
            A::Set => {
                let ls = of(name, got);
                let distinct: BTreeSet<&Tags> = xs.iter().map(|x| &x.tags).collect();
                ensure!(
                    ls.len() >= distinct.len() && (persist || ls.len() <= xs.len()) && ls.iter().all(|l| l.1 == vals[0] && l.0.map_or(true, |t| persist || in_time(xs[0].ev.ts, t))),
                    sig,
                    "{} {:?} is reported as {:?}, expected {} at {:?} between {} and {} times",
                    name, tags, ls, vals[0], xs[0].ev.ts, distinct.len(), xs.len()
                );
                known.insert(name.clone());
            }
            _ => {
                if count {
                    let n: f64 = of(&format!("{}.count", name), got).iter().map(|x| x.1).sum();
                    ensure!(n == (xs.len() * vals.len()) as f64, sig, "{} {:?} has {} samples, expected {}", name, tags, n, xs.len() * vals.len());
                } else {
                    let max = vals.iter().cloned().fold(vals[0], f64::max);
                    let ls = of(&format!("{}.max", name), got);
                    let distinct: BTreeSet<&Tags> = xs.iter().map(|x| &x.tags).collect();
                    ensure!(
                        ls.len() >= distinct.len() && ls.len() <= xs.len() && ls.iter().all(|l| l.1 == max),
                        sig,
                        "the maximum of {} is reported as {:?}, expected {} between {} and {} times",
                        name, ls, max, distinct.len(), xs.len()
                    );
                }
                known.insert(format!("{}.", name));
            }
        }
    }
    for g in got.iter() {
        let stem = g.0.find('.').map_or(g.0.clone(), |i| g.0[..=i].to_string());
        ensure!(
            known.contains(&stem) && (!count || series.keys().any(|k| k.1 == g.1 && stem.trim_end_matches('.') == k.0)),
            sig,
            "{} {:?} {:?} {} is reported, but nothing of it was delivered there",
            g.0, g.1, g.2, g.3
        );
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: Want) {}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        level: "exploration",
        rule: "random layered topologies of sources, filters and sinks (also unconnected ones, several ways to one sink, queues that go to disk, forwards that do not exist) as a configuration file for the real binary; random events through its sources; terminated at once, after a periodic flush, or in the middle of traffic; what arrived at the sinks' endpoints compared with every event taken along every way; pulse: topologies of one or two sources and one or two sinks, so that each sink hangs on the flush pulses of one source, awaited live; non-trivial = more than two deliveries judged, or an invalid forward",
        assumptions: &["accepted means read from the kernel: nothing is left in the receive queues", "loopback loses nothing", "endpoints are up"],
        subs: vec![Sub { name: "process", quick: 400, thorough: 10_000, workers: 0, confirm: 2, f: e2e },
            Sub { name: "pulse", quick: 150, thorough: 4_000, workers: 0, confirm: 2, f: pulse }],
        known: vec![],
    }]
}
