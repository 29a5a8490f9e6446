//! C01: the statsd parser and UDP source.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use cernan::metric::{AggregationMethod as K, Event, Telemetry};
use cernan::protocols::statsd::parse_statsd;
use cernan::source::{Source, Statsd, StatsdConfig, StatsdParseConfig};
use cernan::thread::Stoppable;
use regex::Regex;
use std::net::UdpSocket;
use std::sync::Arc;
use std::time::Duration;

/// what one line of the documented grammar means
#[derive(Debug, Clone)]
struct Line {
    name: String,
    kind: K,
    persist: bool,
    val: f64,
    bounds: Option<Vec<f64>>,
}

struct Conf {
    masks: Vec<(String, Vec<f64>)>,
    err: f64,
}

fn conf(s: &mut Src) -> Conf {
    let masks = s.vec(0, 3, |s| {
        let m = s.pick(&["^a", "foo.*", "b$", ".*", "^x\\.y", "[0-9]"]).to_string();
        let n = s.usize(1, 4);
        let b: Vec<f64> = (0..n).map(|_| s.draw(400) as f64 / 4.0 - 10.0).collect();
        (m, b)
    });
    Conf { masks, err: s.pick(&[0.01, 0.001, 0.05, 0.2]) }
}

fn parse_config(c: &Conf) -> StatsdParseConfig {
    StatsdParseConfig {
        histogram_masks: c.masks.iter().map(|m| (Regex::new(&m.0).unwrap(), m.1.clone())).collect(),
        summarize_error_bound: c.err,
    }
}

/// reference reading of one line
fn ref_line(l: &str, c: &Conf) -> Option<Line> {
    let colon = l.find(':')?;
    let name = &l[..colon];
    if name.is_empty() {
        return None;
    }
    let rest = &l[colon + 1..];
    let pipe = rest.find('|')?;
    let raw = &rest[..pipe];
    let val: f64 = raw.parse().ok()?;
    let ty = &rest[pipe + 1..];
    let (ty, rate) = match ty.find('@') {
        None => (ty, None),
        Some(at) => {
            let mut t = &ty[..at];
            if t.ends_with('|') {
                t = &t[..t.len() - 1];
            }
            (t, Some(ty[at + 1..].parse::<f64>().ok()?))
        }
    };
    let val = match rate {
        None => val,
        Some(r) => val / r,
    };
    let signed = raw.starts_with('+') || raw.starts_with('-');
    let (kind, persist) = match ty {
        "c" => (K::Sum, false),
        "g" => (if signed { K::Sum } else { K::Set }, true),
        "ms" | "h" => (K::Summarize, false),
        _ => return None,
    };
    let mut out = Line { name: name.to_string(), kind, persist, val, bounds: None };
    if kind == K::Summarize {
        for (m, b) in &c.masks {
            if Regex::new(m).unwrap().is_match(name) {
                let mut b = b.clone();
                b.sort_by(|x, y| x.partial_cmp(y).unwrap());
                out.kind = K::Histogram;
                out.bounds = Some(b);
                break;
            }
        }
    }
    Some(out)
}

/// None: the packet is refused
fn ref_packet(p: &str, c: &Conf) -> Option<Vec<Line>> {
    let mut out = vec![];
    let body = if p.ends_with('\n') { &p[..p.len() - 1] } else { p };
    if p.is_empty() {
        return None;
    }
    for l in body.split('\n') {
        let l = if l.ends_with('\r') { &l[..l.len() - 1] } else { l };
        out.push(ref_line(l, c)?);
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

fn value_text(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 2, 1]) {
        0 => format!("{}", s.draw(10_000)),
        1 => format!("{}{}", s.pick(&["+", "-"]), s.draw(1000) as f64 / 8.0),
        2 => format!("{}", anyf(s)),
        _ => s.pick(&["0", "1e3", ".5", "5.", "1E-2", "+.5", "-0", "0.1", "NaN", "inf", "-inf"]).to_string(),
    }
}

fn line_name(s: &mut Src) -> String {
    match s.weighted(&[4, 1]) {
        0 => name(s),
        _ => {
            let a = chars("ab.é∆ _-/@|#1\t");
            format!("n{}", s.string(&a, 0, 4))
        }
    }
}

fn good_line(s: &mut Src) -> String {
    let n = line_name(s);
    let v = value_text(s);
    let ty = s.pick(&["c", "g", "ms", "h"]);
    let rate = match s.weighted(&[3, 1, 1]) {
        0 => String::new(),
        1 => format!("|@{}", s.pick(&["0.1", "0.5", "1", "0.25", "2", "1e-1"])),
        _ => format!("@{}", s.pick(&["0.1", "0.5", "1", "0.25", "0.001"])),
    };
    format!("{}:{}|{}{}", n, v, ty, rate)
}

fn bad_line(s: &mut Src) -> String {
    if s.chance(1, 3) {
        return s
            .pick(&[
                "", ":1|c", "a:|c", "a:1|", "a:1", "a", "a:1|x", "a:1|c|@", "a:1|c@x", "a:x|c", "a:1|ms|@",
                "a:1|c|0.1", "a:1||@0.1", "a:1|@0.1", "a:1:2|c", "a: 1|c", "a:1 |c", "a:1|c ", "a:1|gg",
                "a:+|g", "a:1|h|@0.5|#t:v", "a:é|c", "a:1|é", "a:1|c|@é", ":", "|", "@", "::|",
            ])
            .to_string();
    }
    let mut l: Vec<char> = good_line(s).chars().collect();
    let n = s.usize(1, 2);
    let a = chars(":|@cgmsh+-.01eN aé");
    for _ in 0..n {
        let i = s.draw(l.len() as u64 + 1) as usize;
        match s.draw(3) {
            0 if i < l.len() => {
                l.remove(i);
            }
            1 if i < l.len() => l[i] = s.pick(&a),
            _ => l.insert(i, s.pick(&a)),
        }
    }
    l.into_iter().collect()
}

fn packet(s: &mut Src, big: bool) -> String {
    let n = if big { s.usize(400, 1500) } else { s.usize(1, 6) };
    let crlf = s.chance(1, 6);
    let one_bad = s.chance(1, 3);
    let bad_at = s.draw(n as u64) as usize;
    let mut out = String::new();
    for i in 0..n {
        if i > 0 {
            out.push_str(if crlf { "\r\n" } else { "\n" });
        }
        if big {
            out.push_str(&format!("metric.number.{}:{}|c", i, i));
        } else if one_bad && i == bad_at {
            out.push_str(&bad_line(s));
        } else {
            out.push_str(&good_line(s));
        }
    }
    if s.chance(1, 3) {
        out.push('\n');
    }
    out
}

/// is this the point of that line?
fn check_point(t: &Telemetry, l: &Line, c: &Conf, deep: bool) -> Result<(), String> {
    if t.name != l.name {
        return Err(format!("name {:?}, expected {:?}", t.name, l.name));
    }
    if t.kind() != l.kind {
        return Err(format!("{}: kind {:?}, expected {:?}", l.name, t.kind(), l.kind));
    }
    if t.persist != l.persist {
        return Err(format!("{}: persist {}, expected {}", l.name, t.persist, l.persist));
    }
    if t.timestamp != cernan::time::now() {
        return Err(format!("{}: timestamp {}", l.name, t.timestamp));
    }
    if t.tags(&Default::default()).count() != 0 {
        return Err(format!("{}: has tags", l.name));
    }
    let near = |x: Option<f64>| x.map_or(false, |x| close(x, l.val));
    match l.kind {
        K::Sum => {
            if !near(t.sum()) {
                return Err(format!("{}: value {:?}, expected {}", l.name, t.sum(), l.val));
            }
        }
        K::Set => {
            if !near(t.set()) {
                return Err(format!("{}: value {:?}, expected {}", l.name, t.set(), l.val));
            }
        }
        K::Histogram => {
            let b = l.bounds.as_ref().unwrap();
            if t.count() != 1 || !near(t.samples_sum()) {
                return Err(format!("{}: count {} sum {:?}, expected one sample {}", l.name, t.count(), t.samples_sum(), l.val));
            }
            let got: Vec<(String, usize)> = t.bins().unwrap().map(|&(ref x, n)| (format!("{:?}", x), n)).collect();
            let at = b.iter().position(|x| l.val <= *x).unwrap_or(b.len());
            let mut exp: Vec<(String, usize)> =
                b.iter().enumerate().map(|(i, x)| (format!("Finite({:?})", x), (i == at) as usize)).collect();
            exp.push(("PosInf".to_string(), (at == b.len()) as usize));
            // a value within rounding of a bound may fall on either side
            let edge = b.iter().any(|x| close(*x, l.val) && *x != l.val);
            if got != exp && !edge {
                return Err(format!("{}: bins {:?}, expected {:?}", l.name, got, exp));
            }
        }
        K::Summarize => {
            if t.count() != 1 || !near(t.samples_sum()) || !near(t.query(0.5)) {
                return Err(format!("{}: count {} sum {:?} median {:?}, expected one sample {}", l.name, t.count(), t.samples_sum(), t.query(0.5), l.val));
            }
            if deep && l.val.is_finite() {
                // the configured error bound is visible in what the summary keeps
                let mut t = t.clone();
                let mut r = quantiles::ckms::CKMS::new(c.err);
                r.insert(t.query(0.5).unwrap());
                for i in 0..600 {
                    let v = f64::from((i * 7919) % 600);
                    t = t.insert(v);
                    r.insert(v);
                }
                if t.samples() != r.clone().into_vec() {
                    return Err(format!("{}: the summary does not have the configured error bound {}", l.name, c.err));
                }
            }
        }
    }
    Ok(())
}

fn parse(s: &mut Src, c: &mut Ctx) -> Res {
    let cf = conf(s);
    let pc = Arc::new(parse_config(&cf));
    let basic = Arc::new(Some(Telemetry::default()));
    let n = s.usize(1, 3);
    let (mut good, mut bad, mut lines) = (0, 0, 0);
    for _ in 0..n {
        let p = packet(s, false);
        let mut res = vec![];
        let ok = match guard(|| parse_statsd(&p, &mut res, &basic, &pc)) {
            Ok(ok) => ok,
            Err(e) => return fail("statsd-panic", format!("packet {:?} panics the parser: {}", p, e)),
        };
        match ref_packet(&p, &cf) {
            None => {
                bad += 1;
                ensure!(!ok, "statsd-accepts-malformed", "malformed packet {:?} is accepted as {:?}", p, res.iter().map(obs).collect::<Vec<_>>());
            }
            Some(exp) => {
                good += 1;
                lines += exp.len();
                ensure!(ok, "statsd-refuses-wellformed", "well-formed packet {:?} is refused", p);
                ensure!(res.len() == exp.len(), "statsd-points", "packet {:?}: {} points for {} lines", p, res.len(), exp.len());
                for (t, l) in res.iter().zip(exp.iter()) {
                    let deep = s.chance(1, 40);
                    if let Err(e) = check_point(t, l, &cf, deep) {
                        return fail("statsd-point", format!("packet {:?} (masks {:?}): {}", p, cf.masks, e));
                    }
                }
            }
        }
        if good > 0 {
            c.sample(|| format!("{:?} -> {:?}", p, res.iter().map(|t| format!("{} {:?} {:?}", t.name, t.kind(), t.samples())).collect::<Vec<_>>()));
        }
    }
    c.nontrivial = lines > 0;
    c.label_if(bad > 0, "malformed");
    c.label_if(!cf.masks.is_empty(), "masks");
    Ok(())
}

enum Dg {
    Text(String),
    Bytes(Vec<u8>),
}

fn udp(s: &mut Src, c: &mut Ctx) -> Res {
    let cf = conf(s);
    let port = port(c.worker);
    let early = s.chance(1, 2);
    let big = s.chance(1, 8);
    let n = s.usize(1, 8);
    let mut dgs = vec![];
    for i in 0..n {
        dgs.push(match s.weighted(&[8, 1, 1]) {
            0 => Dg::Text(packet(s, big && i == n / 2)),
            1 => {
                // not UTF-8
                let mut b = good_line(s).into_bytes();
                let at = s.draw(b.len() as u64 + 1) as usize;
                b.insert(at, s.pick(&[0xffu8, 0xc0, 0x80]));
                Dg::Bytes(b)
            }
            _ => Dg::Text(s.pick(&["", "\n", "junk", "a:1|c\nb"]).to_string()),
        });
    }
    let mut exp: Vec<Line> = vec![];
    let (mut bads, mut goods) = (0, 0);
    for d in &dgs {
        let e = match *d {
            Dg::Text(ref t) => ref_packet(t, &cf),
            Dg::Bytes(ref b) => {
                assert!(std::str::from_utf8(b).is_err());
                None
            }
        };
        match e {
            Some(l) => {
                exp.extend(l);
                goods += 1
            }
            None => bads += 1,
        }
    }
    let describe = || -> String {
        dgs.iter()
            .map(|d| match *d {
                Dg::Text(ref t) => format!("{:?}", &t.chars().take(300).collect::<String>()),
                Dg::Bytes(ref b) => format!("{:?}", b),
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    let mark = "the.mark:42|c";
    let tap = Tap::new();
    take_panics();
    let src = Statsd::new(
        tap.chans(),
        StatsdConfig {
            host: "127.0.0.1".to_string(),
            port,
            forwards: vec![],
            config_path: Some("sources.statsd.x".to_string()),
            parse_config: parse_config(&cf),
        },
    );
    let sock = UdpSocket::bind("127.0.0.1:0").unwrap();
    let send = |d: &[u8]| {
        sock.send_to(d, ("127.0.0.1", port)).expect("send");
    };
    let mut th = None;
    let mut src = Some(src);
    if !early {
        th = Some(src.take().unwrap().run());
    }
    for d in &dgs {
        match *d {
            Dg::Text(ref t) => send(t.as_bytes()),
            Dg::Bytes(ref b) => send(b),
        }
        if !early && s.chance(1, 4) {
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    send(mark.as_bytes());
    if let Some(src) = src.take() {
        th = Some(src.run());
    }
    let (evs, found) = tap.until(Duration::from_secs(20), |e| match *e {
        Event::Telemetry(ref t) => t.name == "the.mark",
        _ => false,
    });
    let stopped = join_within(Duration::from_secs(20), move || th.unwrap().shutdown());
    ensure!(found, "statsd-source-stops", "a healthy packet sent after {} is not read: {:?}", describe(), take_panics());
    ensure!(stopped == Some(Ok(())), "statsd-source-shutdown", "the source does not shut down after {}: {:?}", describe(), take_panics());
    let rest = tap.drain();
    ensure!(rest.len() == 1 && rest[0] == Event::Shutdown, "statsd-source-shutdown", "after the last point the source sent {:?}", rest);
    let got: Vec<&Telemetry> = evs[..evs.len() - 1]
        .iter()
        .filter_map(|e| match *e {
            Event::Telemetry(ref t) => Some(t),
            _ => None,
        })
        .collect();
    ensure!(got.len() == evs.len() - 1, "statsd-source-events", "non-telemetry events");
    ensure!(
        got.len() == exp.len(),
        "statsd-source-points",
        "{} points for {} well-formed lines; datagrams (queued before the source ran: {}) {}; got {:?}",
        got.len(), exp.len(), early, describe(), got.iter().take(20).map(|t| t.name.clone()).collect::<Vec<_>>()
    );
    for (t, l) in got.iter().zip(exp.iter()) {
        if let Err(e) = check_point(t, l, &cf, false) {
            return fail("statsd-source-point", format!("datagrams {}: {}", describe(), e));
        }
    }
    c.nontrivial = goods > 0 && n >= 2;
    c.label_if(bads > 0 && goods > 0, "good-and-bad");
    c.label_if(early, "queued");
    c.label_if(big, "large-datagram");
    c.sample(describe);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C01",
        level: "exploration",
        rule: "random packets of the documented grammar and mutations of them, read by a reference parser; for the source, sequences of datagrams (well-formed, malformed, not UTF-8, large), queued up or paced, against what the reference reads; non-trivial = at least one well-formed line (source: and two datagrams)",
        assumptions: &["loopback UDP keeps order and loses nothing at these rates", "the clock does not move within a case", "a carriage return occurs only before a newline"],
        subs: vec![
            Sub { name: "parse", quick: 60_000, thorough: 1_500_000, workers: 0, confirm: 0, f: parse },
            Sub { name: "udp", quick: 4_000, thorough: 60_000, workers: 0, confirm: 2, f: udp },
        ],
        known: vec![],
    }]
}
