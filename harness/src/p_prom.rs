//! C17 prometheus exposition.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::p_metric::V;
use crate::p_wave::Want;
use cernan::metric::AggregationMethod as K;
use cernan::sink::{Prometheus, PrometheusConfig, Sink};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

pub struct Response {
    pub status: u16,
    pub headers: BTreeMap<String, String>,
    pub body: Vec<u8>,
}

/// Read one HTTP response (the server closes the connection after it).
pub fn http_get(port: u16, path: &str, wait: Duration) -> Result<Response, String> {
    let start = Instant::now();
    let mut s = loop {
        match TcpStream::connect(("127.0.0.1", port)) {
            Ok(s) => break s,
            Err(e) => {
                if start.elapsed() > wait {
                    return Err(format!("cannot connect: {}", e));
                }
                thread::sleep(Duration::from_millis(1));
            }
        }
    };
    s.set_read_timeout(Some(wait)).unwrap();
    s.write_all(format!("GET {} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", path).as_bytes())
        .map_err(|e| e.to_string())?;
    let mut all = vec![];
    s.read_to_end(&mut all).map_err(|e| format!("{} after {} bytes", e, all.len()))?;
    let at = all.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no response head in {:?}", String::from_utf8_lossy(&all)))?;
    let head = String::from_utf8_lossy(&all[..at]).to_string();
    let mut lines = head.split("\r\n");
    let status = lines.next().unwrap().split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or("bad status line")?;
    let mut headers = BTreeMap::new();
    for l in lines {
        let mut kv = l.splitn(2, ':');
        headers.insert(kv.next().unwrap().to_lowercase(), kv.next().unwrap_or("").trim().to_string());
    }
    let raw = &all[at + 4..];
    let body = if headers.get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
        let mut out = vec![];
        let mut i = 0;
        loop {
            let e = raw[i..].windows(2).position(|w| w == b"\r\n").ok_or("cut chunk")? + i;
            let n = usize::from_str_radix(String::from_utf8_lossy(&raw[i..e]).split(';').next().unwrap().trim(), 16).map_err(|_| "bad chunk size")?;
            if n == 0 {
                break;
            }
            if e + 2 + n > raw.len() {
                return Err("cut chunk".into());
            }
            out.extend_from_slice(&raw[e + 2..e + 2 + n]);
            i = e + 2 + n + 2;
        }
        out
    } else {
        let n = headers.get("content-length").and_then(|v| v.parse::<usize>().ok());
        if n.map_or(false, |n| n != raw.len()) {
            return Err(format!("content-length {:?}, got {} bytes", n, raw.len()));
        }
        raw.to_vec()
    };
    Ok(Response { status, headers, body })
}

type Labels = BTreeMap<String, String>;

fn name_ok(n: &str, colon: bool) -> bool {
    let c0 = |c: char| c.is_ascii_alphabetic() || c == '_' || (colon && c == ':');
    n.chars().next().map_or(false, c0) && n.chars().all(|c| c0(c) || c.is_ascii_digit())
}

#[derive(Debug)]
pub struct Family {
    kind: String,
    pub samples: BTreeMap<(String, Labels), f64>,
}

/// Strict parse of the text exposition format. `Err` is (signature, message).
pub fn exposition(text: &str) -> Result<BTreeMap<String, Family>, (&'static str, String)> {
    let mut fams: BTreeMap<String, Family> = BTreeMap::new();
    let mut cur = String::new();
    if !text.is_empty() && !text.ends_with('\n') {
        return Err(("prom-syntax", "the last line is not terminated".into()));
    }
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        if line.starts_with("# TYPE ") {
            let f: Vec<&str> = line.split(' ').collect();
            if f.len() != 4 || !name_ok(f[2], true) {
                return Err(("prom-name", format!("malformed type line {:?}", line)));
            }
            if !["counter", "gauge", "histogram", "summary"].contains(&f[3]) {
                return Err(("prom-syntax", format!("unknown type in {:?}", line)));
            }
            cur = f[2].to_string();
            if fams.insert(cur.clone(), Family { kind: f[3].into(), samples: BTreeMap::new() }).is_some() {
                return Err(("prom-type-repeated", format!("second type line or group for {:?}", cur)));
            }
            continue;
        }
        if line.starts_with('#') {
            continue;
        }
        let cs: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut name = String::new();
        while i < cs.len() && cs[i] != '{' && cs[i] != ' ' {
            name.push(cs[i]);
            i += 1;
        }
        if !name_ok(&name, true) {
            return Err(("prom-name", format!("metric name {:?}", name)));
        }
        let mut labels = Labels::new();
        if cs.get(i) == Some(&'{') {
            i += 1;
            loop {
                while cs.get(i) == Some(&' ') {
                    i += 1;
                }
                if cs.get(i) == Some(&'}') {
                    i += 1;
                    break;
                }
                let mut k = String::new();
                while i < cs.len() && cs[i] != '=' {
                    k.push(cs[i]);
                    i += 1;
                }
                if !name_ok(&k, false) {
                    return Err(("prom-label-name", format!("label name {:?} in {:?}", k, line)));
                }
                i += 1;
                if cs.get(i) != Some(&'"') {
                    return Err(("prom-syntax", format!("label value not quoted in {:?}", line)));
                }
                i += 1;
                let mut v = String::new();
                loop {
                    match cs.get(i) {
                        None => return Err(("prom-escape", format!("label value not closed in {:?}", line))),
                        Some('"') => break,
                        Some('\\') => {
                            i += 1;
                            match cs.get(i) {
                                Some('n') => v.push('\n'),
                                Some('"') => v.push('"'),
                                Some('\\') => v.push('\\'),
                                x => return Err(("prom-escape", format!("escape {:?} in {:?}", x, line))),
                            }
                        }
                        Some(c) => v.push(*c),
                    }
                    i += 1;
                }
                i += 1;
                if labels.insert(k.clone(), v).is_some() {
                    return Err(("prom-syntax", format!("label {:?} twice in {:?}", k, line)));
                }
                match cs.get(i) {
                    Some(',') => i += 1,
                    Some('}') => {}
                    _ => return Err(("prom-escape", format!("after a label value in {:?}", line))),
                }
            }
        }
        if cs.get(i) != Some(&' ') {
            return Err(("prom-syntax", format!("no value in {:?}", line)));
        }
        let v: String = cs[i + 1..].iter().collect();
        let v: f64 = v.parse().map_err(|_| ("prom-syntax", format!("value in {:?}", line)))?;
        let fam = match fams.get_mut(&cur) {
            Some(f) => f,
            None => return Err(("prom-syntax", format!("{:?} before any type line", line))),
        };
        let ok = name == cur
            || (fam.kind == "histogram" || fam.kind == "summary") && (name == format!("{}_sum", cur) || name == format!("{}_count", cur))
            || fam.kind == "histogram" && name == format!("{}_bucket", cur);
        if !ok {
            return Err(("prom-group", format!("{:?} is not in the group of {:?} {}", line, cur, fam.kind)));
        }
        // buckets are compared without the suffix, which the sink leaves out
        let name = if name == format!("{}_bucket", cur) { cur.clone() } else { name };
        if fam.samples.insert((name, labels), v).is_some() {
            return Err(("prom-series-twice", format!("the series of {:?} appears twice", line)));
        }
    }
    Ok(fams)
}

fn decode(r: &Response, gzip: bool) -> Result<String, (&'static str, String)> {
    if r.status != 200 {
        return Err(("prom-status", format!("status {}", r.status)));
    }
    let ct = r.headers.get("content-type").cloned().unwrap_or_default();
    if !ct.starts_with("text/plain") {
        return Err(("prom-headers", format!("content type {:?}", ct)));
    }
    let enc = r.headers.get("content-encoding").cloned().unwrap_or_default();
    if (enc == "gzip") != gzip {
        return Err(("prom-headers", format!("content encoding {:?} with gzip = {}", enc, gzip)));
    }
    let b = if gzip {
        let mut out = vec![];
        flate2::read::GzDecoder::new(&r.body[..])
            .read_to_end(&mut out)
            .map_err(|e| ("prom-gzip", format!("{}: {:?}", e, r.body)))?;
        out
    } else {
        r.body.clone()
    };
    String::from_utf8(b).map_err(|e| ("prom-syntax", e.to_string()))
}

fn san(n: &str) -> String {
    let mut o: String = n.bytes().map(|b| if b.is_ascii_alphanumeric() || b == b':' || b == b'_' { b as char } else { '_' }).collect();
    if o.is_empty() || o.as_bytes()[0].is_ascii_digit() {
        o.insert(0, '_');
    }
    o
}

enum Acc {
    One(V),
    Win { samples: Vec<(i64, Vec<f64>)>, sum: f64, count: usize },
}

struct Model {
    cap: usize,
    kinds: BTreeMap<String, K>,
    m: BTreeMap<(String, Tags), Acc>,
}

impl Model {
    fn add(&mut self, name: &str, tags: Tags, k: K, ts: i64, vals: &[f64], bounds: &Option<Vec<f64>>) -> bool {
        let n = san(name);
        if *self.kinds.entry(n.clone()).or_insert(k) != k {
            return false;
        }
        let key = (n, tags);
        if k != K::Summarize {
            let mut v = V::new(k, vals[0], bounds);
            for x in &vals[1..] {
                v.insert(*x);
            }
            let v = match self.m.remove(&key) {
                Some(Acc::One(old)) => old.merge(v),
                _ => v,
            };
            self.m.insert(key, Acc::One(v));
            return true;
        }
        let cap = self.cap;
        let e = self.m.entry(key).or_insert(Acc::Win { samples: vec![], sum: 0.0, count: 0 });
        if let Acc::Win { ref mut samples, ref mut sum, ref mut count } = *e {
            *count += vals.len();
            *sum += vals.iter().sum::<f64>();
            match samples.binary_search_by(|p| p.0.cmp(&ts)) {
                Ok(i) => samples[i].1.extend_from_slice(vals),
                Err(i) => {
                    samples.insert(i, (ts, vals.to_vec()));
                    if samples.len() > cap {
                        let n = samples.len() - cap;
                        samples.drain(..n);
                    }
                }
            }
        }
        true
    }
    fn flush(&mut self, now: i64) {
        let cap = self.cap as i64;
        for a in self.m.values_mut() {
            if let Acc::Win { ref mut samples, .. } = *a {
                samples.retain(|p| (p.0 - now).abs() <= cap);
            }
        }
    }
    fn expect(&self) -> BTreeMap<String, (String, BTreeMap<(String, Labels), Want>)> {
        let mut out: BTreeMap<String, (String, BTreeMap<(String, Labels), Want>)> = BTreeMap::new();
        for (&(ref name, ref tags), a) in &self.m {
            let kind = match self.kinds[name] {
                K::Sum => "counter",
                K::Set => "gauge",
                K::Histogram => "histogram",
                K::Summarize => "summary",
            };
            let mut put = |n: String, extra: Option<(&str, String)>, w: Want| {
                let mut l = tags.clone();
                if let Some((k, v)) = extra {
                    l.insert(k.into(), v);
                }
                out.entry(name.clone()).or_insert_with(|| (kind.to_string(), BTreeMap::new())).1.insert((n, l), w);
            };
            match *a {
                Acc::One(V::Set(x)) | Acc::One(V::Sum(x)) => put(name.clone(), None, Want::Exact(x)),
                Acc::One(V::Hist { ref bounds, ref counts, sum, n }) => {
                    let mut run = 0;
                    for (b, c) in bounds.iter().zip(counts) {
                        run += c;
                        put(name.clone(), Some(("le", b.to_string())), Want::Exact(run as f64));
                    }
                    put(name.clone(), Some(("le", "+Inf".to_string())), Want::Exact(n as f64));
                    put(format!("{}_sum", name), None, Want::Exact(sum));
                    put(format!("{}_count", name), None, Want::Exact(n as f64));
                }
                Acc::One(_) => unreachable!(),
                Acc::Win { ref samples, sum, count } => {
                    if samples.is_empty() {
                        continue;
                    }
                    let mut all: Vec<f64> = samples.iter().flat_map(|p| p.1.clone()).collect();
                    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
                        put(name.clone(), Some(("quantile", q.to_string())), Want::Rank(all.clone(), *q));
                    }
                    put(format!("{}_sum", name), None, Want::Exact(sum));
                    put(format!("{}_count", name), None, Want::Exact(count as f64));
                }
            }
        }
        out
    }
}

fn compare(text: &str, m: &Model, log: &[String]) -> Res {
    let got = match exposition(text) {
        Ok(x) => x,
        Err((sig, e)) => return fail(sig, format!("{}\n{}\n{}", e, text, log.join("\n"))),
    };
    let want = m.expect();
    for (n, &(ref kind, ref samples)) in &want {
        let f = match got.get(n) {
            None => return fail("prom-missing", format!("nothing for {:?}\n{}\n{}", n, text, log.join("\n"))),
            Some(f) => f,
        };
        ensure!(f.kind == *kind, "prom-type", "{:?} is a {}, expected {}\n{}\n{}", n, f.kind, kind, text, log.join("\n"));
        for (k, w) in samples {
            match f.samples.get(k) {
                None => return fail("prom-missing", format!("no sample {:?}\n{}\n{}", k, text, log.join("\n"))),
                Some(v) => ensure!(w.ok(*v), "prom-value", "{:?} is {}, expected {:?}\n{}\n{}", k, v, w, text, log.join("\n")),
            }
        }
        for k in f.samples.keys() {
            ensure!(samples.contains_key(k), "prom-extra", "unexpected sample {:?}\n{}\n{}", k, text, log.join("\n"));
        }
    }
    for n in got.keys() {
        ensure!(want.contains_key(n), "prom-extra", "unexpected metric {:?}\n{}\n{}", n, text, log.join("\n"));
    }
    Ok(())
}

/// Shut the sink down without waiting for its server's poll interval.
pub fn stop<F: FnOnce() + Send + 'static>(port: u16, f: F) -> bool {
    let done = Arc::new(AtomicBool::new(false));
    let d2 = Arc::clone(&done);
    let th = thread::spawn(move || {
        f();
        d2.store(true, Ordering::SeqCst);
    });
    let start = Instant::now();
    while !done.load(Ordering::SeqCst) && start.elapsed() < Duration::from_secs(10) {
        thread::sleep(Duration::from_millis(1));
        if let Ok(mut s) = TcpStream::connect(("127.0.0.1", port)) {
            let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
            let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
            let _ = s.read(&mut [0; 64]);
        }
    }
    let ok = done.load(Ordering::SeqCst);
    if ok {
        let _ = th.join();
    }
    ok
}

struct Series {
    name: String,
    tags: Tags,
    kind: K,
    bounds: Option<Vec<f64>>,
}

fn label_tags(s: &mut Src, hi: usize) -> Tags {
    let mut t = Tags::new();
    for _ in 0..s.usize(0, hi) {
        let k = s.pick(&["k", "host", "region", "_x", "A1"]).to_string();
        let v = if s.chance(1, 4) {
            let a = chars("a\"\\\n{},= é'");
            s.string(&a, 0, 4)
        } else {
            tag_val(s)
        };
        t.insert(k, v);
    }
    t
}

fn table(s: &mut Src) -> Vec<Series> {
    let mut out: Vec<Series> = vec![];
    let mut bnds: BTreeMap<String, Option<Vec<f64>>> = BTreeMap::new();
    for _ in 0..s.usize(1, 6) {
        let name = s.pick(&["a", "b", "a.b", "a_b", "a-b", "1x", "_1x", "é", "x:y", "", "foo bar"]).to_string();
        let b = if s.chance(1, 2) { Some(bounds(s)) } else { None };
        // the bounds of a histogram are those of its name
        let b = bnds.entry(san(&name)).or_insert(b).clone();
        out.push(Series { name, tags: label_tags(s, 2), kind: kind(s), bounds: b });
    }
    out
}

fn start(s: &mut Src, w: usize, gzip: bool) -> (Prometheus, u16, Tags, usize, Option<u64>) {
    let port = port(w);
    let tags = label_tags(s, 2);
    let cap = s.pick(&[600usize, 1, 2, 5, 60]);
    let age = if s.chance(1, 4) { Some(s.pick(&[0u64, 5, 300])) } else { None };
    let sink = Prometheus::init(PrometheusConfig {
        host: "127.0.0.1".into(),
        port,
        config_path: None,
        capacity_in_seconds: cap,
        age_threshold: age,
        tags: tagmap(&tags),
        gzip,
    });
    (sink, port, tags, cap, age)
}

fn scrape(s: &mut Src, c: &mut Ctx) -> Res {
    let gzip = s.chance(1, 3);
    let (mut sink, port, sink_tags, cap, age) = start(s, c.worker, gzip);
    let series = table(s);
    let mut m = Model { cap, kinds: BTreeMap::new(), m: BTreeMap::new() };
    let mut log = vec![format!("window {}, age {:?}, gzip {}, sink tags {:?}", cap, age, gzip, sink_tags)];
    let now = cernan::time::now();
    let n = s.usize(1, 25);
    let (mut scrapes, mut refused, mut old, mut used) = (0, 0, 0, BTreeSet::new());
    let mut res = Ok(());
    for i in 0..n {
        match s.weighted(&[10, 2, 1]) {
            0 => {
                let ix = s.draw(series.len() as u64) as usize;
                let sr = &series[ix];
                let ts = now + s.pick(&[0i64, 0, -1, -2, -4, -10, -61, -700, 3]);
                let vals: Vec<f64> = (0..many(s, 3)).map(|_| exact(s)).collect();
                let persist = s.chance(1, 4);
                log.push(format!("deliver {:?} {:?} {:?} {:?} ts=now{:+}", sr.name, sr.tags, sr.kind, vals, ts - now));
                if age.map_or(true, |a| (ts - now).abs() <= a as i64) {
                    let mut t = sink_tags.clone();
                    t.extend(sr.tags.clone());
                    used.insert(ix);
                    if !m.add(&sr.name, t, sr.kind, ts, &vals, &sr.bounds) {
                        refused += 1;
                    }
                } else {
                    old += 1;
                }
                sink.deliver(build(&Pt {
                    name: sr.name.clone(),
                    kind: sr.kind,
                    tags: sr.tags.clone(),
                    ts,
                    persist,
                    vals,
                    bounds: if sr.kind == K::Histogram { sr.bounds.clone() } else { None },
                    error: None,
                }));
            }
            1 => {
                log.push("flush".into());
                sink.flush();
                m.flush(now);
            }
            _ => {}
        }
        if i + 1 == n || s.chance(1, 8) {
            scrapes += 1;
            log.push("scrape".into());
            res = match http_get(port, s.pick(&["/metrics", "/"]), Duration::from_secs(10)) {
                Err(e) => fail("prom-http", format!("{}\n{}", e, log.join("\n"))),
                Ok(r) => match decode(&r, gzip) {
                    Err((sig, e)) => fail(sig, format!("{}\n{}", e, log.join("\n"))),
                    Ok(t) => compare(&t, &m, &log),
                },
            };
            if res.is_err() {
                break;
            }
        }
    }
    ensure!(stop(port, move || sink.shutdown()), "prom-stop", "the sink does not shut down\n{}", log.join("\n"));
    res?;
    c.nontrivial = used.len() > 1 && m.m.len() > 1;
    c.label_if(gzip, "gzip");
    c.label_if(scrapes > 1, "several-scrapes");
    c.label_if(refused > 0, "kind-conflict");
    c.label_if(old > 0, "too-old");
    c.sample(|| log.join("; "));
    Ok(())
}

/// scrapes while deliveries go on: valid, counters never go back, nothing lost
fn racing(s: &mut Src, c: &mut Ctx) -> Res {
    let gzip = s.chance(1, 4);
    let port = port(c.worker);
    let mut sink = Prometheus::init(PrometheusConfig {
        host: "127.0.0.1".into(),
        port,
        gzip,
        ..PrometheusConfig::default()
    });
    let n = s.usize(20, 400);
    let mut m = Model { cap: 600, kinds: BTreeMap::new(), m: BTreeMap::new() };
    let now = cernan::time::now();
    let mut pts = vec![];
    for _ in 0..n {
        let (nm, k) = s.pick(&[("c", K::Sum), ("h", K::Histogram), ("q", K::Summarize), ("g", K::Set)]);
        let v = s.draw(2000) as f64;
        let mut t = Tags::new();
        if s.chance(1, 2) {
            t.insert("k".into(), s.pick(&["1", "2"]).to_string());
        }
        m.add(nm, t.clone(), k, now, &[v], &None);
        pts.push(build(&Pt { name: nm.into(), kind: k, tags: t, ts: now, persist: false, vals: vec![v], bounds: None, error: None }));
    }
    if let Err(e) = http_get(port, "/", Duration::from_secs(10)) {
        return fail("prom-http", e);
    }
    let stopf = Arc::new(AtomicBool::new(false));
    let st = Arc::clone(&stopf);
    let th = thread::spawn(move || {
        let mut last: BTreeMap<(String, Labels), f64> = BTreeMap::new();
        let mut k = 0;
        while !st.load(Ordering::SeqCst) {
            let text = match http_get(port, "/", Duration::from_secs(10)) {
                Err(e) => return Err(("prom-http", e)),
                Ok(r) => decode(&r, gzip)?,
            };
            let f = exposition(&text)?;
            for (n, fam) in f {
                if fam.kind == "gauge" {
                    continue;
                }
                for (key, v) in fam.samples {
                    if key.1.contains_key("quantile") {
                        continue;
                    }
                    let old = last.insert(key.clone(), v);
                    if old.map_or(false, |o| o > v) {
                        return Err(("prom-back", format!("{:?} of {:?} went from {:?} to {}", key, n, old, v)));
                    }
                }
            }
            k += 1;
        }
        Ok(k)
    });
    for (i, p) in pts.into_iter().enumerate() {
        sink.deliver(p);
        if i % 16 == 0 {
            thread::yield_now();
        }
        if i % 64 == 63 {
            sink.flush();
        }
    }
    stopf.store(true, Ordering::SeqCst);
    let r = th.join();
    let fin = http_get(port, "/", Duration::from_secs(10));
    let stopped = stop(port, move || sink.shutdown());
    let k = match r {
        Err(_) => return fail("harness", "scraper died".into()),
        Ok(Err((sig, e))) => return fail(sig, format!("while {} points were delivered: {}", n, e)),
        Ok(Ok(k)) => k,
    };
    match fin {
        Err(e) => return fail("prom-http", e),
        Ok(r) => match decode(&r, gzip) {
            Err((sig, e)) => return fail(sig, e),
            Ok(t) => compare(&t, &m, &[format!("{} points", n)])?,
        },
    }
    ensure!(stopped, "prom-stop", "the sink does not shut down");
    c.nontrivial = k >= 1;
    c.label_if(k > 1, "several-scrapes-during-deliveries");
    c.sample(|| format!("{} points, {} scrapes meanwhile", n, k));
    Ok(())
}

/// Clients which stop half-way keep neither the others nor the end waiting.
fn stalled(s: &mut Src, c: &mut Ctx) -> Res {
    let _ = take_panics();
    let gzip = s.chance(1, 4);
    let port = port(c.worker);
    let mut sink = Prometheus::init(PrometheusConfig {
        host: "127.0.0.1".into(),
        port,
        gzip,
        ..PrometheusConfig::default()
    });
    let mut m = Model { cap: 600, kinds: BTreeMap::new(), m: BTreeMap::new() };
    let now = cernan::time::now();
    let mut log = vec![];
    let mut held: Vec<TcpStream> = vec![];
    let mut stuck = 0;
    let mut padded = false;
    if let Err(e) = http_get(port, "/", Duration::from_secs(10)) {
        return fail("prom-http", e);
    }
    let put = |s: &mut Src, sink: &mut Prometheus, m: &mut Model, pad: usize| {
        // (the long one is a gauge, which is one line)
        let nk = [("g", K::Set), ("c", K::Sum), ("h", K::Histogram), ("q", K::Summarize)];
        let (nm, k) = if pad > 0 { nk[0] } else { s.pick(&nk) };
        let v = s.draw(2000) as f64;
        let mut t = Tags::new();
        t.insert("k".into(), s.pick(&["1", "2"]).to_string());
        if pad > 0 {
            let mut x = s.draw(1 << 30) | 1;
            let mut v = String::with_capacity(pad);
            while v.len() < pad {
                x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
                v.push((b'a' + (x >> 59) as u8 % 26) as char);
            }
            t.insert("pad".into(), v);
        }
        m.add(nm, t.clone(), k, now, &[v], &None);
        sink.deliver(build(&Pt { name: nm.into(), kind: k, tags: t, ts: now, persist: false, vals: vec![v], bounds: None, error: None }));
    };
    let nops = s.usize(2, 10);
    for i in 0..=nops {
        let op = if i == nops { 5 } else { s.weighted(&[3, 3, 2, 2, 1, 3]) };
        // one of these is enough work for a debug build
        let op = if op == 1 && padded { 2 } else { op };
        if op == 0 {
            let n = s.usize(1, 10);
            for _ in 0..n {
                put(s, &mut sink, &mut m, 0);
            }
            log.push(format!("{} points", n));
            continue;
        }
        // the HTTP library's thread pool can leave a connection waiting for one
        // that was accepted just before
        thread::sleep(Duration::from_millis(30));
        if op == 5 {
            let start = Instant::now();
            let text = match http_get(port, "/", Duration::from_secs(30)) {
                Err(e) => return fail("prom-http", format!("{} after {:?}; panics {:?}\n{}", e, start.elapsed(), take_panics(), log.join("\n"))),
                Ok(r) => decode(&r, gzip).or_else(|(sig, e)| fail(sig, format!("{}\n{}", e, log.join("\n"))))?,
            };
            log.push("scrape".into());
            compare(&text, &m, &log)?;
            continue;
        }
        let mut k = match TcpStream::connect(("127.0.0.1", port)) {
            Ok(k) => {
                // what the system holds for the client must not be enough
                let n: libc::c_int = 4096;
                let r = unsafe { libc::setsockopt(k.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const libc::c_void, 4) };
                assert_eq!(r, 0);
                k
            }
            Err(e) => return fail("prom-http", format!("cannot connect: {}\n{}", e, log.join("\n"))),
        };
        match op {
            1 => {
                // asks for more than it and the system hold, reads nothing
                put(s, &mut sink, &mut m, 300_000);
                padded = true;
                k.set_nonblocking(true).unwrap();
                let n = 20;
                let _ = k.write("GET / HTTP/1.1\r\nHost: x\r\n\r\n".repeat(n).as_bytes());
                log.push(format!("a client sends {} requests and reads nothing", n));
                stuck += 1;
            }
            2 => {
                let _ = k.write_all(b"POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 5000\r\n\r\nabc");
                log.push("a client does not send all of its request's body".into());
                stuck += 1;
            }
            3 => {
                let _ = k.write_all(b"GET / HTTP/1.1\r\nHo");
                log.push("a client does not send all of its request's head".into());
            }
            _ => log.push("a client is silent".into()),
        }
        held.push(k);
        if s.chance(1, 4) {
            log.push("a client goes".into());
            let ix = s.usize(0, held.len() - 1);
            held.remove(ix);
        }
    }
    let start = Instant::now();
    let stopped = join_within(Duration::from_secs(15), move || sink.shutdown());
    ensure!(stopped == Some(Ok(())), "prom-stop", "the sink does not shut down: {:?} after {:?}; panics {:?}\n{}", stopped, start.elapsed(), take_panics(), log.join("\n"));
    c.nontrivial = stuck > 0;
    c.sample(|| log.join("; "));
    drop(held);
    Ok(())
}

fn fixed_case(t: cernan::metric::Telemetry) -> Result<String, Fail> {
    let port = port(0);
    let mut sink = Prometheus::init(PrometheusConfig { host: "127.0.0.1".into(), port, ..PrometheusConfig::default() });
    sink.deliver(t);
    let r = http_get(port, "/", Duration::from_secs(10));
    stop(port, move || sink.shutdown());
    match r {
        Err(e) => fail("prom-http", e),
        Ok(r) => decode(&r, false).map_err(|(s, m)| Fail { sig: s.into(), msg: m }),
    }
}

fn known_label() -> Res {
    let mut t = Tags::new();
    t.insert("custom-tag".into(), "v".into());
    let text = fixed_case(build(&Pt { name: "a".into(), kind: K::Set, tags: t, ts: 0, persist: false, vals: vec![1.0], bounds: None, error: None }))?;
    match exposition(&text) {
        Err((sig, e)) => fail(sig, e),
        Ok(_) => Ok(()),
    }
}

fn known_bucket() -> Res {
    let text = fixed_case(build(&Pt { name: "a".into(), kind: K::Histogram, tags: Tags::new(), ts: 0, persist: false, vals: vec![1.0], bounds: None, error: None }))?;
    ensure!(text.contains("a_bucket{le="), "prom-bucket-suffix", "the buckets of histogram \"a\" are not called a_bucket:\n{}", text);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        level: "exploration",
        rule: "random histories of deliveries, flushes and scrapes (plain and gzip) through the real sink and its HTTP server, every scrape parsed strictly and compared with a model, and scrapes racing with deliveries; non-trivial = several series / at least one scrape during the deliveries",
        assumptions: &[
            "the clock stands still during a case; the summary window is at least one second",
            "tag keys are legal label names other than le and quantile, names do not end in _sum or _count of another metric",
            "histograms of one name have one set of bounds",
        ],
        subs: vec![
            Sub { name: "scrape", quick: 4_000, thorough: 80_000, workers: 0, confirm: 1, f: scrape },
            Sub { name: "racing", quick: 300, thorough: 6_000, workers: 0, confirm: 2, f: racing },
            Sub { name: "stalled", quick: 150, thorough: 3_000, workers: 0, confirm: 2, f: stalled },
        ],
        known: vec![("prom-label-name", known_label), ("prom-bucket-suffix", known_bucket)],
    }]
}
