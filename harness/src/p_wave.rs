//! C15 wavefront output, C16 wavefront padding.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::port;
use crate::p_metric::{Model, SKey, V};
use cernan::metric::AggregationMethod as K;
use cernan::metric::Telemetry;
use cernan::sink::{Sink, Wavefront, WavefrontConfig};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{ErrorKind, Read};
use std::net::{TcpListener, TcpStream};
use std::thread;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Want {
    Exact(f64),
    /// the value of rank q among these (sorted)
    Rank(Vec<f64>, f64),
}
impl Want {
    pub fn ok(&self, v: f64) -> bool {
        match *self {
            Want::Exact(x) => close(x, v) || (x - v).abs() < 1e-9 * (1.0 + x.abs()),
            Want::Rank(ref s, q) => {
                let lo = s.iter().filter(|x| **x < v).count() as f64 + 1.0;
                let hi = s.iter().filter(|x| **x <= v).count() as f64;
                let want = q * s.len() as f64;
                hi >= lo && lo - 1.001 <= want && want <= hi + 1.001
            }
        }
    }
}

/// suffix and value of every line of a point
pub fn parts(v: &V, percentiles: &[(String, f64)]) -> Vec<(String, Want)> {
    match *v {
        V::Set(x) | V::Sum(x) => vec![("".to_string(), Want::Exact(x))],
        V::Hist { ref bounds, ref counts, .. } => {
            let mut out: Vec<(String, Want)> =
                bounds.iter().zip(counts).map(|(b, c)| (format!("_{}", b), Want::Exact(*c as f64))).collect();
            out.push(("_pos_inf".to_string(), Want::Exact(counts[bounds.len()] as f64)));
            out
        }
        V::Quant { ref vals, sum } => {
            let mut s = vals.clone();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut out: Vec<(String, Want)> =
                percentiles.iter().map(|(l, q)| (format!(".{}", l), Want::Rank(s.clone(), *q))).collect();
            out.push((".count".to_string(), Want::Exact(s.len() as f64)));
            out.push((".mean".to_string(), Want::Exact(sum / s.len() as f64)));
            out
        }
    }
}

type Key = (String, Tags, i64);

/// One field of a line: a word or a quoted string, up to a space or the end or `stop`.
fn field(cs: &[char], at: &mut usize, stop: char) -> Result<String, String> {
    let mut out = String::new();
    if cs.get(*at) == Some(&'"') {
        *at += 1;
        loop {
            match cs.get(*at) {
                None => return Err("quote not closed".into()),
                Some('"') => {
                    *at += 1;
                    return Ok(out);
                }
                Some('\\') => {
                    *at += 1;
                    match cs.get(*at) {
                        Some('n') => out.push('\n'),
                        Some('"') => out.push('"'),
                        Some('\\') => out.push('\\'),
                        x => return Err(format!("escape {:?}", x)),
                    }
                }
                Some(c) => out.push(*c),
            }
            *at += 1;
        }
    }
    while let Some(c) = cs.get(*at) {
        if *c == ' ' || *c == stop {
            break;
        }
        if c.is_control() || c.is_whitespace() || *c == '"' {
            return Err(format!("{:?} in a bare word", c));
        }
        out.push(*c);
        *at += 1;
    }
    Ok(out)
}

pub fn parse(line: &str) -> Result<(Key, f64), String> {
    let cs: Vec<char> = line.chars().collect();
    let mut at = 0;
    let space = |at: &mut usize| -> Result<(), String> {
        if cs.get(*at) == Some(&' ') {
            *at += 1;
            Ok(())
        } else {
            Err(format!("no space at {}", at))
        }
    };
    let name = field(&cs, &mut at, ' ')?;
    space(&mut at)?;
    let v = field(&cs, &mut at, ' ')?;
    let v: f64 = v.parse().map_err(|_| format!("value {:?}", v))?;
    space(&mut at)?;
    let t = field(&cs, &mut at, ' ')?;
    let t: i64 = t.parse().map_err(|_| format!("time {:?}", t))?;
    space(&mut at)?;
    let mut tags = Tags::new();
    while at < cs.len() {
        if !tags.is_empty() {
            space(&mut at)?;
        }
        let k = field(&cs, &mut at, '=')?;
        if cs.get(at) != Some(&'=') {
            return Err(format!("tag {:?} has no value", k));
        }
        at += 1;
        let v = field(&cs, &mut at, ' ')?;
        if k.is_empty() {
            return Err("tag without a key".into());
        }
        if tags.insert(k.clone(), v).is_some() {
            return Err(format!("tag {:?} twice", k));
        }
    }
    Ok(((name, tags, t), v))
}

pub struct Endpoint {
    pub port: u16,
    listener: Option<TcpListener>,
    conns: Vec<TcpStream>,
    pub buf: Vec<u8>,
    accepted: usize,
}
impl Endpoint {
    pub fn new(w: usize) -> Endpoint {
        let p = port(w);
        let mut e = Endpoint { port: p, listener: None, conns: vec![], buf: vec![], accepted: 0 };
        e.up();
        e
    }
    fn up(&mut self) {
        self.listener = Some(bind(self.port));
    }
    pub fn pump(&mut self) -> usize {
        let mut n = 0;
        if let Some(ref l) = self.listener {
            while let Ok((s, _)) = l.accept() {
                s.set_nonblocking(true).unwrap();
                self.conns.push(s);
                self.accepted += 1;
            }
        }
        let mut chunk = [0; 65536];
        let buf = &mut self.buf;
        self.conns.retain(|mut c| loop {
            match c.read(&mut chunk) {
                Ok(0) => return false,
                Ok(k) => {
                    n += k;
                    buf.extend_from_slice(&chunk[..k]);
                }
                Err(ref e) if e.kind() == ErrorKind::WouldBlock => return true,
                Err(_) => return false,
            }
        });
        n
    }
    fn lines(&self) -> usize {
        self.buf.iter().filter(|b| **b == b'\n').count()
    }
    fn await_lines(&mut self, n: usize) {
        let start = Instant::now();
        loop {
            let got = self.pump();
            if self.lines() >= n || start.elapsed() > Duration::from_secs(5) {
                break;
            }
            if got == 0 {
                thread::sleep(Duration::from_micros(200));
            }
        }
        self.pump();
    }
}

fn bind(port: u16) -> TcpListener {
    for _ in 0..2000 {
        if let Ok(l) = TcpListener::bind(("127.0.0.1", port)) {
            l.set_nonblocking(true).unwrap();
            return l;
        }
        thread::sleep(Duration::from_millis(1));
    }
    panic!("cannot bind the endpoint again");
}

struct Series {
    key: SKey,
    kind: K,
    bounds: Option<Vec<f64>>,
}

fn word(s: &mut Src, weird: bool) -> String {
    if weird {
        let a = chars("ab \"\\=\n\té,;/'\u{1}");
        s.string(&a, 1, 4)
    } else {
        s.pick(&["a", "b", "ab", "c", "foo.bar", "x-1"]).to_string()
    }
}

fn wave(s: &mut Src, c: &mut Ctx, pads: bool) -> Res {
    let w = s.pick(&[1i64, 1, 2, 5, 10, 60]);
    let weird = !pads && s.chance(1, 5);
    let mixed = !pads && s.chance(1, 5);
    let mut sink_tags = tags(s, 2);
    if s.chance(1, 2) {
        sink_tags.insert("source".into(), word(s, weird));
    }
    let full = |t: &Tags| {
        let mut all = sink_tags.clone();
        all.extend(t.clone());
        all
    };
    let mut series: Vec<Series> = vec![];
    for _ in 0..s.usize(1, 5) {
        let name = word(s, weird);
        let mut t = tags(s, 3);
        if weird {
            t.insert(word(s, true), word(s, true));
        }
        let kind = kind(s);
        let bounds = if s.chance(1, 2) { Some(bounds(s)) } else { None };
        // the sink's tags must leave the series apart
        if series.iter().all(|x| x.key.0 != name || full(&x.key.1) != full(&t)) {
            series.push(Series { key: (name, t), kind, bounds });
        }
    }
    let all = [("min", 0.0), ("max", 1.0), ("2", 0.02), ("50", 0.5), ("90", 0.9), ("p99", 0.99), ("999", 0.999)];
    let mut percentiles: Vec<(String, f64)> = vec![];
    for (l, q) in &all {
        if s.chance(1, 2) {
            percentiles.push((l.to_string(), *q));
        }
    }
    let age = if !pads && s.chance(1, 3) { Some(s.draw(6 * w as u64 + 3)) } else { None };
    let on = |s: &mut Src| pads && s.chance(2, 3);
    let mut pad_control = WavefrontConfig::default().pad_control;
    pad_control.set = on(s);
    pad_control.sum = on(s);
    pad_control.summarize = on(s);
    pad_control.histogram = on(s);
    let enabled = |k: K| match k {
        K::Set => pad_control.set,
        K::Sum => pad_control.sum,
        K::Summarize => pad_control.summarize,
        K::Histogram => pad_control.histogram,
    };
    let now = cernan::time::now();
    let mut ep = Endpoint::new(c.worker);
    let mut sink = Wavefront::init(WavefrontConfig {
        bin_width: w,
        host: "127.0.0.1".to_string(),
        port: ep.port,
        config_path: None,
        percentiles: percentiles.clone(),
        tags: tagmap(&sink_tags),
        flush_interval: 60,
        pad_control,
        age_threshold: age,
    });
    let mut m = Model::new(w);
    let mut log = vec![format!("width {}, age {:?}, pads {:?}, sink tags {:?}, percentiles {:?}", w, age, pad_control, sink_tags, percentiles)];
    let mut last_seen: BTreeMap<(SKey, String), i64> = BTreeMap::new();
    let nfl = s.usize(1, 5);
    let (mut total, mut padded, mut crossed, mut aged, mut carried, mut faults) = (0, 0, 0, 0, 0, 0);
    let mut sink_opt = Some(sink);
    for fl in 0..nfl {
        sink = sink_opt.take().unwrap();
        for _ in 0..s.usize(0, 9) {
            let sr = &series[s.draw(series.len() as u64) as usize];
            let k = if mixed { kind(s) } else { sr.kind };
            let ts = match s.weighted(&[5, 2]) {
                0 => now - 8 * w + s.range(0, 14 * w),
                _ => now + s.range(-3, 3),
            };
            let persist = s.chance(1, 5);
            let vals: Vec<f64> = (0..many(s, 3)).map(|_| exact(s)).collect();
            let mut v = V::new(k, vals[0], &sr.bounds);
            for x in &vals[1..] {
                v.insert(*x);
            }
            log.push(format!("deliver {:?} {:?} {:?} ts=now{:+} persist={}", sr.key, k, vals, ts - now, persist));
            sink.deliver(build(&Pt {
                name: sr.key.0.clone(),
                kind: k,
                tags: sr.key.1.clone(),
                ts,
                persist,
                vals,
                bounds: if k == K::Histogram { sr.bounds.clone() } else { None },
                error: None,
            }));
            if age.map_or(true, |a| (ts - now).abs() <= a as i64) {
                m.add(sr.key.clone(), ts, v, persist);
            } else {
                aged += 1;
            }
        }
        // what this flush has to say
        let mut want: BTreeMap<Key, Want> = BTreeMap::new();
        let mut zeros: BTreeSet<Key> = BTreeSet::new();
        for (key, bins) in &m.m {
            let all_tags = full(&key.1);
            let mut pad = |e: &V, ts: i64| {
                for (suffix, _) in parts(e, &percentiles) {
                    zeros.insert((format!("{}{}", key.0, suffix), all_tags.clone(), ts));
                }
            };
            for (i, e) in bins.iter().enumerate() {
                for (suffix, x) in parts(&e.v, &percentiles) {
                    let old = want.insert((format!("{}{}", key.0, suffix), all_tags.clone(), e.ts), x);
                    // one series of an odd name imitates a statistic of another
                    if old.is_some() {
                        c.label("ambiguous");
                        return Ok(());
                    }
                }
                if !enabled(e.v.kind()) {
                    continue;
                }
                let id = (key.clone(), format!("{:?}", e.v.kind()));
                let last = last_seen.get(&id).cloned();
                // the gap since earlier flushes
                if let Some(l) = last {
                    let first = bins.iter().find(|e| e.ts > l).map(|e| e.ts);
                    if first == Some(e.ts) && (e.ts - l) / w > 1 {
                        pad(&e.v, l + 1);
                        pad(&e.v, e.ts - 1);
                        crossed += 1;
                    }
                }
                if i + 1 < bins.len() && last.map_or(true, |l| e.ts > l) {
                    let n = bins[i + 1].ts;
                    if (n - e.ts) / w > 1 {
                        pad(&e.v, e.ts + 1);
                        pad(&e.v, n - 1);
                        padded += 1;
                    }
                }
            }
            if let Some(e) = bins.last() {
                let l = last_seen.entry((key.clone(), format!("{:?}", e.v.kind()))).or_insert(e.ts);
                *l = e.ts.max(*l);
            }
        }
        for k in want.keys() {
            if zeros.contains(k) {
                return fail("harness", format!("model pads over a report {:?}", k));
            }
        }
        // the endpoint may be away
        let fault = if s.chance(1, 4) { s.usize(1, 3) } else { 0 };
        let mut back = None;
        if fault > 0 {
            faults += 1;
            ep.pump();
            log.push(format!("fault {}", fault));
            ep.conns.clear();
            if fault > 1 {
                ep.listener = None;
                let p = ep.port;
                let ms = 1 + s.draw(20);
                back = Some(thread::spawn(move || {
                    thread::sleep(Duration::from_millis(ms));
                    bind(p)
                }));
            }
        }
        ep.buf.clear();
        let end = fl + 1 == nfl;
        log.push(if end { "shutdown".into() } else { "flush".into() });
        if end {
            sink.shutdown();
        } else {
            sink.flush();
            sink_opt = Some(sink);
        }
        if let Some(th) = back {
            ep.listener = Some(th.join().unwrap());
        }
        ep.await_lines(want.len());
        if end {
            let start = Instant::now();
            while !ep.conns.is_empty() && start.elapsed() < Duration::from_secs(5) {
                ep.pump();
            }
        } else if !zeros.is_empty() {
            let min = want.len() + zeros.len();
            ep.await_lines(min);
        }
        let text = match String::from_utf8(ep.buf.clone()) {
            Ok(t) => t,
            Err(_) => return fail("wave-utf8", format!("not UTF-8: {:?}\n{}", ep.buf, log.join("\n"))),
        };
        let mut seen: BTreeSet<Key> = BTreeSet::new();
        let mut order: BTreeMap<(String, Tags), i64> = BTreeMap::new();
        ensure!(text.is_empty() || text.ends_with('\n'), "wave-line", "the last line is not terminated: {:?}\n{}", text, log.join("\n"));
        for line in text.split('\n') {
            if line.is_empty() {
                continue;
            }
            let (key, v) = match parse(line) {
                Ok(x) => x,
                Err(e) => return fail("wave-line", format!("malformed line {:?}: {}\n{}", line, e, log.join("\n"))),
            };
            if let Some(x) = want.get(&key) {
                ensure!(x.ok(v), "wave-value", "line {:?}: value {}, expected {:?}\n{}\n{}", line, v, x, log.join("\n"), text);
                ensure!(seen.insert(key.clone()), "wave-repeat", "line {:?} twice in a flush\n{}\n{}", line, log.join("\n"), text);
            } else {
                ensure!(zeros.contains(&key), "wave-extra", "line {:?} is neither a report nor a pad (now is {})\n{}\n{}", line, now, log.join("\n"), text);
                ensure!(v == 0.0, "wave-pad-value", "pad {:?} is not zero\n{}\n{}", line, log.join("\n"), text);
                seen.insert(key.clone());
            }
            let t = order.entry((key.0.clone(), key.1.clone())).or_insert(key.2);
            ensure!(*t <= key.2, "wave-order", "line {:?} comes after a later one of its series\n{}\n{}", line, log.join("\n"), text);
            *t = key.2;
        }
        for k in want.keys() {
            ensure!(seen.contains(k), "wave-missing", "no line for {:?} (now is {})\n{}\n{}", k, now, log.join("\n"), text);
        }
        for k in &zeros {
            ensure!(seen.contains(k), "wave-pad-missing", "no pad for {:?} (now is {})\n{}\n{}", k, now, log.join("\n"), text);
        }
        total += want.len();
        carried += m.m.values().filter(|b| b.last().map_or(false, |e| e.persist)).count();
        m.reset();
    }
    c.nontrivial = if pads { padded + crossed > 0 } else { total > 2 };
    c.label_if(padded > 0, "gap-in-flush");
    c.label_if(crossed > 0, "gap-across-flushes");
    c.label_if(aged > 0, "too-old");
    c.label_if(carried > 0, "carried-forward");
    c.label_if(faults > 0, "endpoint-away");
    c.label_if(weird, "quoting");
    c.label_if(mixed, "mixed-kinds");
    c.sample(|| log.join("; "));
    Ok(())
}

fn output(s: &mut Src, c: &mut Ctx) -> Res {
    wave(s, c, false)
}
fn padding(s: &mut Src, c: &mut Ctx) -> Res {
    wave(s, c, true)
}

/// The endpoint breaks a connection in the middle of a flush: all of the flush
/// comes again on a later one.
fn broken(s: &mut Src, c: &mut Ctx) -> Res {
    let p = port(c.worker);
    let l = bind(p);
    l.set_nonblocking(false).unwrap();
    let small: libc::c_int = 4096;
    unsafe {
        use std::os::unix::io::AsRawFd;
        libc::setsockopt(l.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &small as *const _ as *const libc::c_void, 4);
    }
    let now = cernan::time::now();
    let mut sink = Wavefront::init(WavefrontConfig { host: "127.0.0.1".into(), port: p, ..WavefrontConfig::default() });
    // how much of each connection is taken before it breaks; the last one stays
    let cuts: Vec<usize> = (0..s.usize(1, 3)).map(|_| s.usize(0, 30) * 100_000 / 10).collect();
    let rounds = s.usize(1, 3);
    let at = s.draw(rounds as u64) as usize;
    let width = s.usize(2_000, 4_000);
    let large = 10_000_000 / width;
    let few = s.usize(1, 5);
    let c2 = cuts.clone();
    let (tx, rx) = std::sync::mpsc::channel::<Vec<u8>>();
    let server = thread::spawn(move || {
        let mut chunk = vec![0; 65536];
        for k in 0..=c2.len() {
            let mut con = match l.accept() {
                Ok((con, _)) => con,
                Err(_) => return,
            };
            let mut mine = vec![];
            while k == c2.len() || mine.len() < c2[k] + (k == 0) as usize * 1_000_000 {
                match con.read(&mut chunk) {
                    Ok(n) if n > 0 => mine.extend_from_slice(&chunk[..n]),
                    _ => break,
                }
            }
            let _ = tx.send(mine);
        }
    });
    let log = format!("{} flushes, the large one of {} lines of {} bytes is number {}, connections break after {:?} bytes", rounds, large, width, at, cuts);
    let mut want: Vec<BTreeSet<String>> = vec![];
    for r in 0..rounds {
        let n = if r == at { large } else { few };
        let mut names = BTreeSet::new();
        for i in 0..n {
            let name = if r == at { format!("{}.{}.{}", "x".repeat(width), r, i) } else { format!("s.{}.{}", r, i) };
            sink.deliver(Telemetry::new().name(name.clone()).value(1.0).kind(K::Sum).timestamp(now).harden().unwrap());
            names.insert(name);
        }
        want.push(names);
        sink.flush();
    }
    sink.shutdown();
    let mut conns: Vec<Vec<u8>> = vec![];
    for _ in 0..=cuts.len() {
        match rx.recv_timeout(Duration::from_secs(10)) {
            Ok(b) => conns.push(b),
            Err(_) => return fail("wave-broken", format!("connection {} never comes\n{}", conns.len(), log)),
        }
    }
    let _ = server.join();
    let mut whole: BTreeSet<String> = BTreeSet::new();
    let stamp = now.to_string();
    for (k, b) in conns.iter().enumerate() {
        let text = String::from_utf8_lossy(b);
        let mut ls: Vec<&str> = text.split('\n').collect();
        let rest = ls.pop().unwrap_or("");
        ensure!(k < cuts.len() || rest.is_empty(), "wave-broken", "the last line is not terminated: {} bytes\n{}", rest.len(), log);
        for line in ls {
            // plain words only: no need to parse ten megabytes letter by letter
            let ws: Vec<&str> = line.split(' ').filter(|w| !w.is_empty()).collect();
            ensure!(ws.len() >= 3 && ws[1] == "1" && ws[2] == stamp, "wave-broken", "a malformed line of {} bytes on connection {}: {:?}\n{}", line.len(), k, &ws[1..], log);
            ensure!(want.iter().any(|w| w.contains(ws[0])), "wave-broken", "a line of {} bytes nobody sent\n{}", line.len(), log);
            whole.insert(ws[0].to_string());
        }
    }
    for (r, names) in want.iter().enumerate() {
        let lost = names.iter().filter(|n| !whole.contains(*n)).count();
        ensure!(lost == 0, "wave-broken", "{} of {} lines of flush {} never arrived\n{}", lost, names.len(), r, log);
    }
    c.nontrivial = true;
    c.label_if(cuts.len() > 1, "breaks-again");
    c.sample(|| log.clone());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            level: "exploration",
            rule: "random histories of deliveries, flushes, endpoint outages and a shutdown through the real sink to a TCP endpoint, every line parsed and compared with a model of the aggregates; broken: flushes of many megabytes whose connections break in the middle, once or again; non-trivial = more than two lines reported",
            assumptions: &["the clock stands still during a case", "values are finite"],
            subs: vec![Sub { name: "output", quick: 12_000, thorough: 250_000, workers: 0, confirm: 1, f: output },
                Sub { name: "broken", quick: 40, thorough: 2_000, workers: 0, confirm: 1, f: broken }],
            known: vec![],
        },
        Prop {
            id: "C16",
            level: "exploration",
            rule: "the same histories with random padding switches; reports and pads compared with a model of the gaps inside and across flushes; non-trivial = at least one gap to pad",
            assumptions: &["the clock stands still during a case", "one kind per series"],
            subs: vec![Sub { name: "padding", quick: 12_000, thorough: 250_000, workers: 0, confirm: 1, f: padding }],
            known: vec![],
        },
    ]
}
