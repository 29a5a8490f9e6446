//! C02 graphite streams, C03 native streams, C05 avro publishing: the TCP
//! sources, driven over loopback with arbitrary segmentation.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use cernan::metric::{self, AggregationMethod, Encoding, Event, LogLine, Telemetry};
use cernan::source::{Avro, Graphite, GraphiteConfig, NativeServer, NativeServerConfig, Source, TCPConfig};
use cernan::thread::{Stoppable, ThreadHandle};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::thread;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ connections

/// What a client does with its connection.
#[derive(Clone, Debug)]
pub struct Plan {
    /// pieces and the pause after each, in tenths of a millisecond
    pub pieces: Vec<(Vec<u8>, u64)>,
    pub close: Close,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Close {
    /// the client says it is done and waits for the server to close
    Half,
    /// the client keeps the connection open to the end
    Open,
    /// the client waits for the server to close (the stream is malformed)
    Server,
}

pub fn segment(s: &mut Src, bytes: &[u8]) -> Vec<(Vec<u8>, u64)> {
    let parts: Vec<Vec<u8>> = match s.weighted(&[4, 8, 1]) {
        0 => {
            if bytes.is_empty() {
                vec![]
            } else {
                vec![bytes.to_vec()]
            }
        }
        1 => {
            let n = s.usize(1, 8);
            cuts(s, bytes, n)
        }
        _ => {
            if bytes.len() <= 60 {
                bytes.iter().map(|b| vec![*b]).collect()
            } else {
                cuts(s, bytes, 30)
            }
        }
    };
    parts.into_iter().map(|p| (p, s.pick(&[10u64, 5, 0, 20]))).collect()
}

fn connect(port: u16) -> TcpStream {
    let start = Instant::now();
    loop {
        match TcpStream::connect(("127.0.0.1", port)) {
            Ok(t) => {
                t.set_nodelay(true).unwrap();
                t.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
                return t;
            }
            Err(e) => {
                if start.elapsed() > Duration::from_secs(10) {
                    panic!("cannot connect: {}", e);
                }
                thread::sleep(Duration::from_millis(2));
            }
        }
    }
}

/// Runs the plan. What the server answered, and whether it ended the
/// connection (or the stream it was still being written to).
fn client(port: u16, p: Plan) -> (Option<TcpStream>, Vec<u8>, bool) {
    let mut t = connect(port);
    for (b, pause) in &p.pieces {
        if t.write_all(b).is_err() {
            return (None, vec![], true);
        }
        if *pause > 0 {
            thread::sleep(Duration::from_micros(*pause * 100));
        }
    }
    if p.close == Close::Open {
        return (Some(t), vec![], false);
    }
    if p.close == Close::Half {
        let _ = t.shutdown(Shutdown::Write);
    }
    let mut out = vec![];
    let ended = match t.read_to_end(&mut out) {
        Ok(_) => true,
        Err(ref e) => {
            e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::BrokenPipe
        }
    };
    (None, out, ended)
}

/// Run all connections at once; wait for `expect` events; shut down.
/// The events, in order, without the final Shutdown.
fn drive(prefix: &str, port: u16, tap: Tap, th: ThreadHandle, plans: &[Plan], expect: usize) -> Result<Vec<Event>, Fail> {
    let ths: Vec<_> = plans
        .iter()
        .map(|p| {
            let p = p.clone();
            thread::spawn(move || client(port, p))
        })
        .collect();
    let mut open = vec![];
    let mut bad = None;
    for (i, t) in ths.into_iter().enumerate() {
        match t.join() {
            Ok((sock, _, ended)) => {
                if plans[i].close != Close::Open && !ended && bad.is_none() {
                    bad = Some(format!("connection {} ({:?}) is not closed by the source within 20 s", i, plans[i].close));
                }
                open.push(sock);
            }
            Err(_) => bad = Some(format!("connection {} could not be made", i)),
        }
    }
    let wait = Duration::from_secs(if bad.is_some() { 1 } else { 10 });
    let mut evs = vec![];
    while evs.len() < expect {
        match tap.next(wait) {
            Some(e) => evs.push(e),
            None => break,
        }
    }
    let stopped = join_within(Duration::from_secs(20), move || th.shutdown());
    drop(open);
    if let Some(b) = bad {
        return fail(&format!("{}-let-go", prefix), format!("{}; panics {:?}", b, take_panics()));
    }
    ensure!(stopped == Some(Ok(())), &format!("{}-shutdown", prefix), "the source does not shut down ({:?}): {:?}", stopped, take_panics());
    evs.extend(tap.drain());
    ensure!(evs.pop() == Some(Event::Shutdown), &format!("{}-shutdown", prefix), "the source did not end with a Shutdown");
    ensure!(!evs.iter().any(|e| *e == Event::Shutdown), &format!("{}-shutdown", prefix), "several Shutdowns");
    Ok(evs)
}

fn show(p: &[Plan]) -> String {
    p.iter()
        .map(|p| {
            let bytes: Vec<u8> = p.pieces.iter().flat_map(|x| x.0.iter().cloned()).collect();
            let lens: Vec<usize> = p.pieces.iter().map(|x| x.0.len()).collect();
            let b = String::from_utf8_lossy(&bytes[..bytes.len().min(400)]).into_owned();
            format!("{:?} cut in {:?} then {:?}", b, &lens[..lens.len().min(40)], p.close)
        })
        .collect::<Vec<_>>()
        .join(" || ")
}

/// Each connection's events in its order, by the name each carries.
fn by_conn<F: Fn(&Event) -> Option<usize>>(evs: &[Event], n: usize, of: F) -> Result<Vec<Vec<Event>>, Fail> {
    let mut out = vec![vec![]; n];
    for e in evs {
        match of(e) {
            Some(i) if i < n => out[i].push(e.clone()),
            _ => return fail("tcp-foreign-event", format!("an event nobody sent: {}", evobs(e))),
        }
    }
    Ok(out)
}

fn conn_of_name(name: &str) -> Option<usize> {
    // c<i>_...
    if !name.starts_with('c') {
        return None;
    }
    name[1..].split('_').next().and_then(|x| x.parse().ok())
}

// ------------------------------------------------------------------ graphite

pub struct Gp {
    name: String,
    value: f64,
    ts: i64,
}

fn gvalue(s: &mut Src) -> (String, f64) {
    let mut v = finite(s);
    // (this standard library refuses some of its own long decimals)
    let back = |t: String| t.parse::<f64>().ok().map(|x| x.to_bits()) == Some(v.to_bits());
    if !back(format!("{}", v)) || !back(format!("{:e}", v)) {
        v = 1.0;
    }
    match s.weighted(&[5, 2, 1, 1, 1]) {
        0 => (format!("{}", v), v),
        1 => (format!("{:e}", v), v),
        2 => {
            let t = s.pick(&[("+1.5", 1.5), (".5", 0.5), ("5.", 5.0), ("-0", -0.0), ("1e5", 1e5), ("1E-3", 1e-3), ("00012", 12.0), ("-.25", -0.25)]);
            (t.0.to_string(), t.1)
        }
        3 => s.pick(&[("inf".to_string(), std::f64::INFINITY), ("-inf".to_string(), std::f64::NEG_INFINITY), ("NaN".to_string(), std::f64::NAN)]),
        _ => {
            let v = s.draw(100_000) as f64;
            (format!("{}", v), v)
        }
    }
}

fn gts(s: &mut Src) -> (String, i64) {
    let t = match s.weighted(&[6, 2, 1]) {
        0 => s.range(0, 2_000_000_000),
        1 => s.range(-1000, 1000),
        _ => s.pick(&[i64::max_value(), i64::min_value(), 0, 1 << 40]),
    };
    if t > 0 && s.chance(1, 10) {
        (format!("+{}", t), t)
    } else if t >= 0 && s.chance(1, 20) {
        (format!("000{}", t), t)
    } else {
        (format!("{}", t), t)
    }
}

fn gws(s: &mut Src) -> &'static str {
    s.pick(&[" ", " ", " ", "  ", "\t", " \t ", "\u{a0}", "\u{2003}"])
}

fn gname(s: &mut Src, conn: usize) -> String {
    let rest = match s.weighted(&[5, 2, 1]) {
        0 => name(s),
        1 => {
            let a = chars("abé∆\u{1F600}ß.%@:|#;=-_0\u{FFFD}");
            s.string(&a, 1, 8)
        }
        _ => "1".to_string(),
    };
    format!("c{}_{}", conn, rest)
}

/// one line without its end, and the points it stands for (None: malformed)
pub fn gline(s: &mut Src, conn: usize) -> (Vec<u8>, Option<Vec<Gp>>) {
    let n = s.weighted(&[10, 2, 1]) + 1;
    let mut toks: Vec<String> = vec![];
    let mut pts = vec![];
    for _ in 0..n {
        let name = gname(s, conn);
        let (vt, value) = gvalue(s);
        let (tt, ts) = gts(s);
        toks.push(name.clone());
        toks.push(vt);
        toks.push(tt);
        pts.push(Gp { name, value, ts });
    }
    let mut ok = true;
    let mut junk = None;
    if s.chance(1, 3) {
        ok = false;
        match s.weighted(&[2, 2, 2, 2, 1]) {
            0 => {
                // a field is missing
                let drop = s.usize(1, 2);
                for _ in 0..drop {
                    toks.pop();
                }
            }
            1 => {
                let i = s.draw(n as u64) as usize;
                toks[3 * i + 1] = s.pick(&["x", "1,5", "0x10", "1_000", "--1", "1e", "e5", "1.2.3"]).to_string();
            }
            2 => {
                let i = s.draw(n as u64) as usize;
                toks[3 * i + 2] = s.pick(&["1.5", "9223372036854775808", "now", "-", "1e3", "0x1"]).to_string();
            }
            3 => junk = Some(s.pick(&[vec![0xffu8], vec![0xc0, 0x80], vec![0xe2, 0x88], vec![0x80], vec![0xed, 0xa0, 0x80]])),
            _ => toks.clear(),
        }
    }
    let mut out = vec![];
    if s.chance(1, 8) {
        out.extend_from_slice(gws(s).as_bytes());
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            out.extend_from_slice(gws(s).as_bytes());
        }
        out.extend_from_slice(t.as_bytes());
    }
    if s.chance(1, 8) {
        out.extend_from_slice(gws(s).as_bytes());
    }
    if let Some(j) = junk {
        let text = String::from_utf8(out.clone()).unwrap();
        let mut at = s.draw(out.len() as u64 + 1) as usize;
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        // (a cut sequence followed by ASCII or by nothing stays invalid)
        for (k, b) in j.iter().enumerate() {
            out.insert(at + k, *b);
        }
        if std::str::from_utf8(&out).is_ok() {
            out.push(0xff);
        }
    }
    (out, if ok { Some(pts) } else { None })
}

fn graphite(s: &mut Src, c: &mut Ctx) -> Res {
    let conns = s.weighted(&[4, 2, 1]) + 1;
    let mut plans = vec![];
    let mut want: Vec<Vec<Gp>> = vec![];
    let (mut good, mut bad, mut multi) = (0, 0, 0);
    for i in 0..conns {
        let n = s.usize(0, 10);
        let mut bytes = vec![];
        let mut pts = vec![];
        let mut close = if s.chance(1, 3) { Close::Open } else { Close::Half };
        for k in 0..n {
            let (b, p) = gline(s, i);
            if let Some(p) = p {
                good += 1;
                if p.len() > 1 {
                    multi += 1;
                }
                pts.extend(p);
            } else {
                bad += 1;
            }
            bytes.extend(b);
            if k + 1 < n || close == Close::Open || s.chance(1, 2) {
                bytes.extend_from_slice(if s.chance(1, 6) { b"\r\n" } else { b"\n" });
            } else {
                close = Close::Half;
            }
        }
        plans.push(Plan { pieces: segment(s, &bytes), close });
        want.push(pts);
    }
    let port = port(c.worker);
    let tap = Tap::new();
    take_panics();
    let th = Graphite::new(
        tap.chans(),
        GraphiteConfig { host: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("g".to_string()) }.into(),
    )
    .run();
    let expect: usize = want.iter().map(|w| w.len()).sum();
    let evs = drive("graphite", port, tap, th, &plans, expect)?;
    let name_of = |e: &Event| match *e {
        Event::Telemetry(ref t) => conn_of_name(&t.name),
        _ => None,
    };
    let got = by_conn(&evs, conns, name_of)?;
    for i in 0..conns {
        let g: Vec<String> = got[i].iter().map(evobs).collect();
        let w: Vec<String> = want[i]
            .iter()
            .map(|p| {
                obs(&build(&Pt {
                    name: p.name.clone(),
                    kind: AggregationMethod::Set,
                    tags: Tags::new(),
                    ts: p.ts,
                    persist: false,
                    vals: vec![p.value],
                    bounds: None,
                    error: None,
                }))
            })
            .collect();
        ensure!(g == w, "graphite-points", "connection {} of {}: expected {:?}, got {:?}", i, show(&plans), w, g);
    }
    c.nontrivial = good >= 1 && plans.iter().any(|p| p.pieces.len() >= 2);
    c.label_if(bad > 0 && good > 0, "good-and-bad");
    c.label_if(multi > 0, "several-triples");
    c.label_if(conns > 1, "several-connections");
    c.label_if(plans.iter().any(|p| p.close == Close::Open), "open-to-the-end");
    c.sample(|| show(&plans));
    Ok(())
}

// ------------------------------------------------------------------ native

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn field(no: u64, wire: u64, out: &mut Vec<u8>) {
    varint(no << 3 | wire, out)
}
pub fn bytes_field(no: u64, b: &[u8], out: &mut Vec<u8>) {
    field(no, 2, out);
    varint(b.len() as u64, out);
    out.extend_from_slice(b);
}
pub fn map_field(no: u64, t: &Tags, s: &mut Src, out: &mut Vec<u8>) {
    for (k, v) in t {
        let mut e = vec![];
        if s.chance(1, 8) {
            bytes_field(2, v.as_bytes(), &mut e);
            bytes_field(1, k.as_bytes(), &mut e);
        } else {
            bytes_field(1, k.as_bytes(), &mut e);
            bytes_field(2, v.as_bytes(), &mut e);
        }
        bytes_field(no, &e, out);
    }
}

/// milliseconds, and the whole seconds they stand for
fn millis(s: &mut Src) -> (i64, i64) {
    let ms = match s.weighted(&[5, 2, 1]) {
        0 => s.range(0, 2_000_000_000_000),
        1 => s.range(0, 2_000_000_000) * 1000,
        _ => s.range(0, 5000),
    };
    (ms, ms / 1000)
}

fn tag_text(s: &mut Src) -> Tags {
    let mut t = tags(s, 3);
    if s.chance(1, 6) {
        let k = text(s, 5);
        t.insert(k, text(s, 6));
    }
    t
}

/// an encoded Telemetry message and the event it stands for
pub fn npoint(s: &mut Src, conn: usize, no: usize) -> (Vec<u8>, Option<Telemetry>) {
    let mut m = vec![];
    let name = format!("c{}_{}_{}", conn, no, if s.chance(1, 5) { text(s, 6) } else { name(s) });
    let kindi = s.weighted(&[3, 3, 3, 2]);
    let kind = [AggregationMethod::Set, AggregationMethod::Sum, AggregationMethod::Summarize, AggregationMethod::Histogram][kindi];
    let n = match s.weighted(&[6, 3, 1]) {
        0 => 1,
        1 => s.usize(1, 8),
        _ => 0,
    };
    let vals: Vec<f64> = (0..n).map(|_| if s.chance(1, 12) { finite(s) } else { exact(s) }).collect();
    let tags = tag_text(s);
    let persist = s.chance(1, 3);
    let (ms, ts) = millis(s);
    let order = s.chance(1, 4);
    let enc_samples = |s: &mut Src, m: &mut Vec<u8>| {
        if s.chance(1, 5) {
            // not packed
            for v in &vals {
                field(2, 1, m);
                m.extend_from_slice(&v.to_bits().to_le_bytes());
            }
        } else if !vals.is_empty() {
            let mut b = vec![];
            for v in &vals {
                b.extend_from_slice(&v.to_bits().to_le_bytes());
            }
            bytes_field(2, &b, m);
        }
    };
    if order {
        enc_samples(s, &mut m);
    }
    bytes_field(1, name.as_bytes(), &mut m);
    if !order {
        enc_samples(s, &mut m);
    }
    if persist || s.chance(1, 4) {
        field(3, 0, &mut m);
        varint(persist as u64, &mut m);
    }
    // SUMMARIZE is the default
    if kindi != 2 || s.chance(1, 2) {
        field(4, 0, &mut m);
        varint(method_no(kind), &mut m);
    }
    map_field(5, &tags, s, &mut m);
    let mut tss = ts;
    if ms == 0 && s.chance(1, 2) {
        tss = 0;
    } else {
        field(6, 0, &mut m);
        varint(ms as u64, &mut m);
    }
    if s.chance(1, 10) {
        // a field of a later version of the protocol
        bytes_field(15, b"later", &mut m);
    }
    let ev = if vals.is_empty() {
        None
    } else {
        Some(build(&Pt { name, kind, tags, ts: tss, persist, vals: vals.clone(), bounds: None, error: None }))
    };
    (m, ev)
}

pub fn method_no(k: AggregationMethod) -> u64 {
    match k {
        AggregationMethod::Set => 2,
        AggregationMethod::Sum => 1,
        AggregationMethod::Summarize => 3,
        AggregationMethod::Histogram => 4,
    }
}

fn nline(s: &mut Src, conn: usize, no: usize, len: usize) -> (Vec<u8>, LogLine) {
    let mut m = vec![];
    let path = format!("c{}_{}_{}", conn, no, s.pick(&["/var/log/x", "p", "é"]));
    let value = if len > 0 { "y".repeat(len) } else { text(s, 20) };
    let tags = tag_text(s);
    let (ms, ts) = millis(s);
    bytes_field(1, path.as_bytes(), &mut m);
    if !value.is_empty() || s.chance(1, 2) {
        bytes_field(2, value.as_bytes(), &mut m);
    }
    map_field(3, &tags, s, &mut m);
    field(4, 0, &mut m);
    varint(ms as u64, &mut m);
    let mut l = LogLine::new(path, value).time(ts);
    for (k, v) in tags {
        l = l.overlay_tag(k, v);
    }
    (m, l)
}

pub fn framed(b: &[u8]) -> Vec<u8> {
    let mut out = (b.len() as u32).to_be_bytes().to_vec();
    out.extend_from_slice(b);
    out
}

const LIMIT: usize = 1_048_576;

fn native(s: &mut Src, c: &mut Ctx) -> Res {
    let conns = s.weighted(&[4, 2, 1]) + 1;
    let mut plans = vec![];
    let mut want: Vec<Vec<String>> = vec![];
    let (mut broken, mut empties, mut large) = (0, 0, 0);
    let mut nev = 0;
    for i in 0..conns {
        let n = s.usize(0, 5);
        let mut bytes = vec![];
        let mut evs = vec![];
        let mut close = if s.chance(1, 3) { Close::Open } else { Close::Half };
        let mut no = 0;
        let stop = if s.chance(1, 3) { s.usize(0, n) } else { n + 1 };
        for k in 0..=n {
            if k == stop {
                // malformed from here on
                broken += 1;
                match s.weighted(&[2, 2, 1, 1, 1]) {
                    0 => {
                        // does not parse
                        let mut b = s.pick(&[vec![0x0fu8], vec![0x12, 0x7f, 0x00], vec![0x12], vec![0x00], vec![0x12, 0x80], vec![0x0b]]);
                        if s.chance(1, 3) {
                            let (p, _) = npoint(s, i, 99);
                            let mut pre = vec![];
                            bytes_field(2, &p, &mut pre);
                            pre.extend(b);
                            b = pre;
                        }
                        bytes.extend(framed(&b));
                        close = Close::Server;
                    }
                    1 => {
                        // a string that is not UTF-8
                        let mut p = vec![];
                        bytes_field(1, &[b'c', 0xff, 0xfe], &mut p);
                        let mut b = vec![];
                        bytes_field(2, &p, &mut b);
                        bytes.extend(framed(&b));
                        close = Close::Server;
                    }
                    2 => {
                        // too long
                        let l = s.pick(&[LIMIT as u32 + 1, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000, 1 << 24]);
                        bytes.extend_from_slice(&l.to_be_bytes());
                        close = Close::Server;
                    }
                    3 => {
                        // cut off in the middle
                        let (p, _) = npoint(s, i, 99);
                        let mut b = vec![];
                        bytes_field(2, &p, &mut b);
                        let b = framed(&b);
                        let at = s.usize(1, b.len() - 1);
                        bytes.extend_from_slice(&b[..at]);
                        close = Close::Half;
                    }
                    _ => {
                        // a message inside that runs past the end
                        let mut b = vec![];
                        bytes_field(2, &[0x0a, 0x7f, b'x'], &mut b);
                        bytes.extend(framed(&b));
                        close = Close::Server;
                    }
                }
                if close == Close::Server && s.chance(1, 3) {
                    // what follows is not read
                    let (p, _) = npoint(s, i, 99);
                    let mut b = vec![];
                    bytes_field(2, &p, &mut b);
                    bytes.extend(framed(&b));
                }
                break;
            }
            if k == n {
                break;
            }
            let items = s.usize(0, 4);
            let mut b = vec![];
            let mut points = vec![];
            let mut lines = vec![];
            for _ in 0..items {
                no += 1;
                if s.chance(2, 3) {
                    let (m, e) = npoint(s, i, no);
                    bytes_field(2, &m, &mut b);
                    points.extend(e.map(|t| obs(&t)));
                } else {
                    let (m, l) = nline(s, i, no, 0);
                    bytes_field(3, &m, &mut b);
                    lines.push(logobs(&l));
                }
            }
            if s.chance(1, 150) {
                // fill up to the limit
                no += 1;
                let room = LIMIT - b.len();
                let (m0, _) = nline(&mut Src::replay(&[]), i, no, 1);
                let over = m0.len() + 20;
                let (m, l) = nline(&mut Src::replay(&[]), i, no, room - over);
                bytes_field(3, &m, &mut b);
                let pad = LIMIT - b.len();
                if pad >= 3 {
                    bytes_field(15, &vec![0; pad - 2], &mut b);
                }
                if b.len() > LIMIT {
                    b.truncate(0);
                    points.clear();
                    lines.clear();
                } else {
                    lines.push(logobs(&l));
                    large += 1;
                }
            }
            if b.is_empty() {
                empties += 1;
            }
            bytes.extend(framed(&b));
            nev += points.len() + lines.len();
            evs.extend(points);
            evs.extend(lines);
        }
        plans.push(Plan { pieces: segment(s, &bytes), close });
        want.push(evs);
    }
    let port = port(c.worker);
    let tap = Tap::new();
    take_panics();
    let th = NativeServer::new(
        tap.chans(),
        NativeServerConfig { ip: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("n".to_string()) }.into(),
    )
    .run();
    let expect: usize = want.iter().map(|w| w.len()).sum();
    let evs = drive("native", port, tap, th, &plans, expect)?;
    let got = by_conn(&evs, conns, |e| match *e {
        Event::Telemetry(ref t) => conn_of_name(&t.name),
        Event::Log(ref l) => conn_of_name(&l.path),
        _ => None,
    })?;
    for i in 0..conns {
        let g: Vec<String> = got[i].iter().map(evobs).collect();
        if g != want[i] {
            let short = |v: &Vec<String>| v.iter().map(|x| x.chars().take(300).collect::<String>()).collect::<Vec<_>>();
            return fail("native-events", format!("connection {} of {}: expected {:?}, got {:?}", i, show(&plans), short(&want[i]), short(&g)));
        }
    }
    c.nontrivial = nev >= 1 && plans.iter().any(|p| p.pieces.len() >= 2);
    c.label_if(broken > 0, "malformed");
    c.label_if(empties > 0, "empty-payload");
    c.label_if(large > 0, "one-mebibyte");
    c.label_if(conns > 1, "several-connections");
    c.sample(|| show(&plans));
    Ok(())
}

// ------------------------------------------------------------------ avro

/// an Avro object container file, made by hand
pub fn container(s: &mut Src) -> Vec<u8> {
    let mut b = b"Obj\x01".to_vec();
    let schema = s.pick(&["\"string\"", "\"long\"", "{\"type\":\"record\",\"name\":\"r\",\"fields\":[{\"name\":\"a\",\"type\":\"long\"}]}"]);
    let zig = |v: i64, out: &mut Vec<u8>| varint(((v << 1) ^ (v >> 63)) as u64, out);
    let codec = s.chance(1, 2);
    zig(1 + codec as i64, &mut b);
    let mut put = |k: &str, v: &str, b: &mut Vec<u8>| {
        zig(k.len() as i64, b);
        b.extend_from_slice(k.as_bytes());
        zig(v.len() as i64, b);
        b.extend_from_slice(v.as_bytes());
    };
    put("avro.schema", schema, &mut b);
    if codec {
        put("avro.codec", "null", &mut b);
    }
    zig(0, &mut b);
    let sync: Vec<u8> = (0..16).map(|_| s.draw(256) as u8).collect();
    b.extend_from_slice(&sync);
    // one block
    let n = s.usize(0, 30);
    let data: Vec<u8> = (0..n).map(|_| s.draw(256) as u8).collect();
    zig(1, &mut b);
    zig(data.len() as i64, &mut b);
    b.extend(data);
    b.extend_from_slice(&sync);
    b
}

const GONE: u64 = 0x6060_6060_6060_6060;

#[derive(Clone, Debug)]
pub struct Pub {
    order_by: u64,
    id: u64,
    sync: bool,
    md: Option<BTreeMap<Vec<u8>, Vec<u8>>>,
    pub blob: Vec<u8>,
}

pub fn publication(s: &mut Src) -> (Vec<u8>, Pub) {
    let version = s.pick(&[2u32, 1, 0, 2, 3]);
    let sync = s.chance(1, 4);
    let control = (s.pick(&[0u32, 0, 2, 0xffff_fffe]) & !1) | sync as u32;
    let id = s.u64();
    let order_by = s.u64();
    let mut b = vec![];
    b.extend_from_slice(&version.to_be_bytes());
    b.extend_from_slice(&control.to_be_bytes());
    b.extend_from_slice(&id.to_be_bytes());
    b.extend_from_slice(&order_by.to_be_bytes());
    let mut md = None;
    if version >= 2 {
        let n = match s.weighted(&[4, 4, 1]) {
            0 => 0,
            1 => s.usize(1, 4),
            _ => 255,
        };
        b.push(n as u8);
        let mut m = BTreeMap::new();
        for i in 0..n {
            let mut k = if n == 255 { vec![i as u8] } else { key_bytes(s) };
            k.truncate(255);
            let v: Vec<u8> = if n < 255 && s.chance(1, 20) {
                vec![7; s.pick(&[65535usize, 256, 65280])]
            } else {
                let l = s.usize(0, 4);
                (0..l).map(|_| s.draw(256) as u8).collect()
            };
            b.push(k.len() as u8);
            b.extend_from_slice(&k);
            b.extend_from_slice(&(v.len() as u16).to_be_bytes());
            b.extend_from_slice(&v);
            m.insert(k, v);
        }
        if n > 0 {
            md = Some(m);
        }
    }
    let blob = container(s);
    b.extend_from_slice(&blob);
    (b, Pub { order_by, id, sync, md, blob })
}

fn key_bytes(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[5, 1, 1]) {
        0 => s.pick(&["id", "k", "key", "é", "", "partition"]).as_bytes().to_vec(),
        1 => vec![b'k'; 255],
        _ => (0..s.usize(1, 5)).map(|_| s.draw(256) as u8).collect(),
    }
}

fn avro(s: &mut Src, c: &mut Ctx) -> Res {
    let conns = s.weighted(&[4, 2, 1]) + 1;
    let mut plans = vec![];
    let mut want: Vec<Vec<Pub>> = vec![];
    let (mut broken, mut syncs) = (0, 0);
    let vanish = s.chance(1, 8);
    for _ in 0..conns {
        let n = s.usize(0, 5);
        let mut bytes = vec![];
        let mut pubs = vec![];
        let mut close = if s.chance(1, 3) { Close::Open } else { Close::Half };
        let stop = if s.chance(1, 3) { s.usize(0, n) } else { n + 1 };
        for k in 0..=n {
            if k == stop {
                broken += 1;
                let (b, p) = publication(s);
                match s.weighted(&[3, 3, 1, 1]) {
                    0 => {
                        // the header or metadata is cut short, the frame is whole
                        let whole = b.len() - p.blob.len();
                        let at = s.usize(0, whole - 1);
                        bytes.extend(framed(&b[..at]));
                        close = Close::Server;
                    }
                    1 => {
                        // not a container
                        let mut b = b.clone();
                        let at = b.len() - p.blob.len();
                        match s.draw(3) {
                            0 => b[at] = b'X',
                            1 => b.truncate(at + s.usize(0, 8)),
                            _ => b[at + 3] = 9,
                        }
                        bytes.extend(framed(&b));
                        close = Close::Server;
                    }
                    2 => {
                        let l = s.pick(&[LIMIT as u32 + 1, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000]);
                        bytes.extend_from_slice(&l.to_be_bytes());
                        close = Close::Server;
                    }
                    _ => {
                        let b = framed(&b);
                        let at = s.usize(1, b.len() - 1);
                        bytes.extend_from_slice(&b[..at]);
                        close = Close::Half;
                    }
                }
                if close == Close::Server && s.chance(1, 3) {
                    bytes.extend(framed(&publication(s).0));
                }
                break;
            }
            if k == n {
                break;
            }
            let (b, p) = publication(s);
            bytes.extend(framed(&b));
            if p.sync {
                syncs += 1;
            }
            pubs.push(p);
        }
        plans.push(Plan { pieces: segment(s, &bytes), close });
        want.push(pubs);
    }
    let delay = s.pick(&[0u64, 0, 3, 15]);
    let port = port(c.worker);
    let tap = Tap::new();
    take_panics();
    let th = Avro::new(
        tap.chans(),
        TCPConfig { host: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("a".to_string()) },
    )
    .run();
    // clients: each one writes in one thread and collects answers in another
    let mut clients = vec![];
    for p in &plans {
        let p = p.clone();
        clients.push(thread::spawn(move || {
            let mut t = connect(port);
            let mut r = t.try_clone().unwrap();
            let (atx, arx) = std::sync::mpsc::channel::<Vec<u8>>();
            let rd = thread::spawn(move || {
                let mut buf = [0; 64];
                loop {
                    match r.read(&mut buf) {
                        Ok(0) => return true,
                        Ok(n) => {
                            let _ = atx.send(buf[..n].to_vec());
                        }
                        Err(ref e) => return e.kind() != std::io::ErrorKind::WouldBlock && e.kind() != std::io::ErrorKind::TimedOut,
                    }
                }
            });
            for (b, pause) in &p.pieces {
                if t.write_all(b).is_err() {
                    break;
                }
                if *pause > 0 {
                    thread::sleep(Duration::from_micros(*pause * 100));
                }
            }
            if p.close == Close::Half {
                let _ = t.shutdown(Shutdown::Write);
            }
            (t, rd, arx)
        }));
    }
    // a client that asks for an acknowledgement and goes away without it
    let mut gone = None;
    if vanish {
        let mut b = vec![];
        b.extend_from_slice(&1u32.to_be_bytes());
        b.extend_from_slice(&1u32.to_be_bytes());
        b.extend_from_slice(&7u64.to_be_bytes());
        b.extend_from_slice(&GONE.to_be_bytes());
        b.extend(container(&mut Src::replay(&[])));
        let mut t = connect(port);
        let _ = t.write_all(&framed(&b));
        linger_zero(&t);
        gone = Some(t);
    }
    // take the events, acknowledge what asks for it
    let expect: usize = want.iter().map(|w| w.len()).sum::<usize>() + vanish as usize;
    let mut got: Vec<Event> = vec![];
    let mut acked = vec![];
    let bag = metric::global_ack_bag();
    while got.len() < expect {
        match tap.next(Duration::from_secs(10)) {
            None => break,
            Some(e) => {
                if let Event::Raw { connection_id: Some(id), order_by, .. } = e {
                    if bag.props_for(id).is_some() {
                        if let Some(g) = gone.take() {
                            if order_by == GONE {
                                drop(g);
                                thread::sleep(Duration::from_millis(5));
                            } else {
                                gone = Some(g);
                            }
                        }
                        if delay > 0 {
                            thread::sleep(Duration::from_millis(delay));
                        }
                        acked.push((id, Instant::now()));
                        bag.with_props(id, |p| p.ack());
                    }
                }
                got.push(e);
            }
        }
    }
    let desc = || format!("{} publications on {}, acknowledged after {} ms{}", expect, show(&plans), delay, if vanish { ", one publisher vanishes" } else { "" });
    let mut answers = vec![];
    for (i, cl) in clients.into_iter().enumerate() {
        let (t, rd, arx) = match cl.join() {
            Ok(x) => x,
            Err(_) => return fail("avro-connect", format!("connection {} cannot be made: {}", i, desc())),
        };
        let asked = want[i].iter().filter(|p| p.sync).count();
        let mut a = vec![];
        while a.len() < 8 * asked {
            match arx.recv_timeout(Duration::from_secs(10)) {
                Ok(b) => a.extend(b),
                Err(_) => break,
            }
        }
        answers.push((a, t, rd, arx));
    }
    // the source stops, which closes the remaining connections
    let mut ended = vec![true; conns];
    for (i, x) in answers.iter_mut().enumerate() {
        if plans[i].close != Close::Open {
            // closed by the source
            let t0 = Instant::now();
            loop {
                match x.3.recv_timeout(Duration::from_secs(10)) {
                    Ok(b) => x.0.extend(b),
                    Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
                    Err(_) => {
                        ended[i] = false;
                        break;
                    }
                }
                if t0.elapsed() > Duration::from_secs(20) {
                    break;
                }
            }
        }
    }
    drop(gone);
    let stopped = join_within(Duration::from_secs(15), move || th.shutdown());
    ensure!(stopped == Some(Ok(())), "avro-shutdown", "the source does not shut down ({:?}): {}; panics {:?}", stopped, desc(), take_panics());
    for (i, e) in ended.iter().enumerate() {
        ensure!(*e, "avro-let-go", "connection {} is not closed by the source: {}", i, desc());
    }
    got.extend(tap.drain());
    ensure!(got.pop() == Some(Event::Shutdown), "avro-shutdown", "the source did not end with a Shutdown: {}", desc());
    // group by connection
    let mut groups: Vec<(uuid::Uuid, Vec<Pub>)> = vec![];
    for e in &got {
        match *e {
            Event::Raw { order_by, ref encoding, ref bytes, ref metadata, connection_id: Some(id) } => {
                ensure!(*encoding == Encoding::Avro, "avro-event", "encoding {:?}", encoding);
                let md: Option<BTreeMap<Vec<u8>, Vec<u8>>> =
                    metadata.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
                let p = Pub { order_by, id: 0, sync: false, md, blob: bytes.clone() };
                if let Some(g) = groups.iter_mut().find(|g| g.0 == id) {
                    g.1.push(p);
                    continue;
                }
                groups.push((id, vec![p]));
            }
            ref e => return fail("avro-event", format!("{}: {}", evobs(e), desc())),
        }
    }
    let key = |p: &[Pub]| -> String { format!("{:?}", p.iter().map(|p| (p.order_by, &p.md, &p.blob)).collect::<Vec<_>>()) };
    let mut have: Vec<String> = groups.iter().map(|g| key(&g.1)).collect();
    let mut exp: Vec<String> = want.iter().filter(|w| !w.is_empty()).map(|w| key(w)).collect();
    if vanish {
        let v = key(&[Pub { order_by: GONE, id: 0, sync: false, md: None, blob: container(&mut Src::replay(&[])) }]);
        if let Some(i) = have.iter().position(|h| *h == v) {
            have.remove(i);
        }
    }
    have.sort();
    exp.sort();
    ensure!(have == exp, "avro-events", "{}: expected per connection {:?}, got {:?}", desc(), cut(&exp), cut(&have));
    for (i, x) in answers.into_iter().enumerate() {
        let mut a = x.0;
        while let Ok(b) = x.3.recv_timeout(Duration::from_secs(5)) {
            a.extend(b);
        }
        drop(x.1);
        let _ = x.2.join();
        let w: Vec<u8> = want[i].iter().filter(|p| p.sync).flat_map(|p| p.id.to_be_bytes().to_vec()).collect();
        ensure!(a == w, "avro-ack", "connection {}: answered {:?}, expected {:?}: {}", i, a, w, desc());
    }
    c.nontrivial = expect >= 1 && plans.iter().any(|p| p.pieces.len() >= 2);
    c.label_if(syncs > 0, "acknowledged");
    c.label_if(broken > 0, "malformed");
    c.label_if(vanish, "publisher-vanishes");
    c.label_if(conns > 1, "several-connections");
    c.sample(desc);
    Ok(())
}

/// no answer before a sink has acknowledged; its own identifier, once, after
fn ack_order(s: &mut Src, c: &mut Ctx) -> Res {
    let conns = s.usize(1, 3);
    let port = port(c.worker);
    let tap = Tap::new();
    take_panics();
    let th = Avro::new(
        tap.chans(),
        TCPConfig { host: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("a".to_string()) },
    )
    .run();
    let mut socks: Vec<TcpStream> = (0..conns).map(|_| connect(port)).collect();
    let bag = metric::global_ack_bag();
    let rounds = s.usize(1, 4);
    let mut log = vec![];
    let mut asked = 0;
    let r = (|| -> Res {
        for round in 0..rounds {
            // each connection publishes one
            let mut pubs = vec![];
            for (i, t) in socks.iter_mut().enumerate() {
                let (mut b, mut p) = publication(s);
                p.order_by = (round * 10 + i) as u64;
                b[16..24].copy_from_slice(&p.order_by.to_be_bytes());
                t.write_all(&framed(&b)).map_err(|e| Fail { sig: "avro-ack-write".to_string(), msg: e.to_string() })?;
                pubs.push(p);
            }
            let mut ids = vec![None; conns];
            for _ in 0..conns {
                match tap.next(Duration::from_secs(10)) {
                    Some(Event::Raw { order_by, connection_id, .. }) => ids[(order_by % 10) as usize] = connection_id,
                    e => return fail("avro-ack-event", format!("instead of a publication: {:?}", e.map(|e| evobs(&e)))),
                }
            }
            // acknowledge in a random order
            let mut left: Vec<usize> = (0..conns).filter(|i| pubs[*i].sync).collect();
            let quiet: Vec<usize> = (0..conns).filter(|i| !pubs[*i].sync).collect();
            thread::sleep(Duration::from_millis(s.pick(&[1u64, 4, 8])));
            while !left.is_empty() {
                let k = s.draw(left.len() as u64) as usize;
                let i = left[k];
                for j in left.iter().chain(quiet.iter()) {
                    ensure!(pending(&socks[*j]) == 0, "avro-ack-early", "connection {} was answered before its publication was acknowledged ({:?})", j, log);
                }
                left.remove(k);
                asked += 1;
                bag.with_props(ids[i].unwrap(), |p| p.ack());
                let mut a = [0; 8];
                if let Err(e) = socks[i].read_exact(&mut a) {
                    return fail("avro-ack", format!("connection {} is not answered: {} ({:?})", i, e, log));
                }
                ensure!(a == pubs[i].id.to_be_bytes(), "avro-ack", "connection {} answered {:?}, asked with {}", i, a, pubs[i].id);
                log.push((round, i));
            }
            for j in 0..conns {
                ensure!(pending(&socks[j]) == 0, "avro-ack-twice", "connection {} was answered more than it asked for", j);
            }
        }
        Ok(())
    })();
    // let nobody wait for ever
    drop(socks);
    let stopped = if r.is_ok() { join_within(Duration::from_secs(15), move || th.shutdown()) } else { Some(Ok(())) };
    r?;
    ensure!(stopped == Some(Ok(())), "avro-shutdown", "the source does not shut down ({:?}), {:?}", stopped, take_panics());
    let rest = tap.drain();
    ensure!(rest == vec![Event::Shutdown], "avro-shutdown", "at the end the source sent {:?}", rest.iter().map(evobs).collect::<Vec<_>>());
    c.nontrivial = asked > 0;
    c.label_if(conns > 1, "several-connections");
    c.sample(|| format!("{} connections, {} rounds, acknowledged (round, connection) {:?}", conns, rounds, log));
    Ok(())
}

/// bytes waiting to be read
fn pending(t: &TcpStream) -> usize {
    t.set_nonblocking(true).unwrap();
    let n = t.peek(&mut [0; 64]).unwrap_or(0);
    t.set_nonblocking(false).unwrap();
    n
}

pub fn linger_zero(t: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            t.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

fn cut(v: &[String]) -> Vec<String> {
    v.iter().map(|x| x.chars().take(400).collect()).collect()
}

pub fn props() -> Vec<Prop> {
    let assume: &'static [&'static str] = &["loopback TCP delivers what is written", "thread interleavings are those the scheduler produces"];
    vec![
        Prop {
            id: "C02",
            level: "exploration",
            rule: "random streams of well-formed and malformed lines on one to three connections, cut into random segments with pauses, ended by the client or left open, against what the lines stand for by construction; non-trivial = a well-formed line and a stream cut at least once",
            assumptions: assume,
            subs: vec![Sub { name: "streams", quick: 8_000, thorough: 150_000, workers: 0, confirm: 1, f: graphite }],
            known: vec![],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "random sequences of hand-encoded payloads (points, lines, empty, at the size limit, malformed, cut off) on one to three connections, cut into random segments with pauses; non-trivial = an event and a stream cut at least once",
            assumptions: assume,
            subs: vec![Sub { name: "streams", quick: 8_000, thorough: 150_000, workers: 0, confirm: 1, f: native }],
            known: vec![],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "random sequences of publications (with and without acknowledgement, malformed, cut off) on one to three connections, cut into random segments; acknowledgement at random delays and in random order across connections; non-trivial = a publication and a stream cut at least once, or an acknowledgement",
            assumptions: assume,
            subs: vec![
                Sub { name: "publish", quick: 6_000, thorough: 100_000, workers: 0, confirm: 1, f: avro },
                Sub { name: "acks", quick: 2_000, thorough: 30_000, workers: 0, confirm: 1, f: ack_order },
            ],
            known: vec![],
        },
    ]
}
