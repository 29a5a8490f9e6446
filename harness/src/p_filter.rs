//! C09 delay filter, C10 flush-boundary filter, C11 JSON encoding filter.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use cernan::filter::{
    DelayFilter, DelayFilterConfig, Filter, FlushBoundaryFilter, FlushBoundaryFilterConfig, JSONEncodeFilter,
    JSONEncodeFilterConfig,
};
use cernan::metric::{Encoding, Event, LogLine};
use serde_json::{Map, Value};
use std::collections::BTreeMap;
use std::thread;
use std::time::Duration;

pub fn any_event(s: &mut Src, ts: i64) -> Event {
    match s.weighted(&[5, 3, 1]) {
        0 => Event::Telemetry(telem(s, ts)),
        1 => Event::Log(logline(s, ts)),
        _ => raw(s),
    }
}

// ------------------------------------------------------------------------- C09

fn delay(s: &mut Src, c: &mut Ctx) -> Res {
    let tol: i64 = match s.weighted(&[6, 1]) {
        0 => s.range(1, 120),
        _ => s.pick(&[0, 1, 3600, 1 << 40, std::i64::MAX]),
    };
    let mut f = DelayFilter::new(&DelayFilterConfig {
        config_path: Some("filters.d".to_string()),
        forwards: vec![],
        tolerance: tol,
    });
    let n = s.usize(1, 12);
    let (mut kept, mut dropped) = (0, 0);
    let mut log = vec![];
    for _ in 0..n {
        let now = cernan::time::now();
        let ts: i64 = match s.weighted(&[6, 2, 2, 1]) {
            0 => now.saturating_add(s.range(-150, 150)),
            1 => {
                let d = s.range(-1, 1);
                let edge = if s.chance(1, 2) { now.saturating_sub(tol) } else { now.saturating_add(tol) };
                edge.saturating_add(d)
            }
            2 => s.u64() as i64,
            _ => s.pick(&[0, -1, std::i64::MAX, std::i64::MIN, std::i64::MIN + 1]),
        };
        let ev = match s.weighted(&[6, 4, 1, 1, 1]) {
            0 => Event::Telemetry(telem(s, ts)),
            1 => Event::Log(logline(s, ts)),
            2 => raw(s),
            3 => Event::TimerFlush(s.u64()),
            _ => Event::Shutdown,
        };
        let what = evobs(&ev);
        let timed = ev.timestamp().is_some();
        // now may advance by a second or two while we look
        let far = (i128::from(ts) - i128::from(now)).abs();
        let mut res = vec![];
        match guard(|| f.process(ev.clone(), &mut res).is_ok()) {
            Ok(true) => {}
            Ok(false) => return fail("delay-error", format!("the filter refuses {}", what)),
            Err(p) => return fail("delay-panic", format!("tolerance {} panics at {} ({} from now): {}", tol, what, far, p)),
        }
        let got: Vec<String> = res.iter().map(evobs).collect();
        let want = if !timed || far < i128::from(tol) {
            Some(true)
        } else if far > i128::from(tol) {
            Some(false)
        } else {
            None
        };
        log.push(format!("{}s:{}", i128::from(ts) - i128::from(now), !got.is_empty()));
        if want == Some(true) {
            kept += 1;
            ensure!(got == vec![what.clone()], "delay-keep", "tolerance {}: {} ({} s from now) came out as {:?}", tol, what, far, got);
        } else if want == Some(false) {
            dropped += 1;
            ensure!(got.is_empty(), "delay-drop", "tolerance {}: {} ({} s from now) came out as {:?}", tol, what, far, got);
        } else {
            ensure!(got.is_empty() || got == vec![what.clone()], "delay-edge", "{} came out as {:?}", what, got);
        }
    }
    c.nontrivial = kept > 0 && dropped > 0;
    c.sample(|| format!("tolerance {}: {}", tol, log.join(" ")));
    Ok(())
}

// ------------------------------------------------------------------------- C10

struct FbModel {
    tol: usize,
    // timestamp -> (age, events)
    holds: BTreeMap<i64, (usize, Vec<String>)>,
}

fn fb_filter(tol: usize) -> FlushBoundaryFilter {
    FlushBoundaryFilter::new(&FlushBoundaryFilterConfig {
        config_path: Some("filters.f".to_string()),
        forwards: vec![],
        tolerance: tol,
    })
}

/// is `got` the released events, per timestamp in arrival order, nothing else?
fn same_release(got: &[(Option<i64>, String)], want: &BTreeMap<i64, Vec<String>>) -> Result<(), String> {
    let mut by_ts: BTreeMap<i64, Vec<String>> = BTreeMap::new();
    for (ts, o) in got {
        match *ts {
            Some(t) => by_ts.entry(t).or_insert_with(Vec::new).push(o.clone()),
            None => return Err(format!("{} among the released events", o)),
        }
    }
    if by_ts == *want {
        Ok(())
    } else {
        Err(format!("released {:?}, expected {:?}", by_ts, want))
    }
}

fn flush_boundary(s: &mut Src, c: &mut Ctx) -> Res {
    let tol = s.usize(0, 4);
    let mut f = fb_filter(tol);
    let mut m = FbModel { tol, holds: BTreeMap::new() };
    let n = s.usize(1, 40);
    let mut idx = 0;
    let mut log = vec![];
    let (mut released_n, mut pulses, mut raws) = (0, 0, 0);
    for step in 0..n {
        if s.chance(1, 3) {
            idx += 1;
            pulses += 1;
            let mut want: BTreeMap<i64, Vec<String>> = BTreeMap::new();
            let mut keep = BTreeMap::new();
            for (ts, (age, evs)) in std::mem::replace(&mut m.holds, BTreeMap::new()) {
                if age + 1 > m.tol {
                    want.insert(ts, evs);
                } else {
                    keep.insert(ts, (age + 1, evs));
                }
            }
            m.holds = keep;
            let mut res = vec![];
            ensure!(f.process(Event::TimerFlush(idx), &mut res).is_ok(), "boundary-error", "pulse refused");
            log.push(format!("pulse {}", idx));
            ensure!(res.last() == Some(&Event::TimerFlush(idx)), "boundary-pulse", "pulse {} does not come out last: {:?}\n{}", idx, res.iter().map(evobs).collect::<Vec<_>>(), log.join("\n"));
            res.pop();
            released_n += res.len();
            let got: Vec<(Option<i64>, String)> = res.iter().map(|e| (e.timestamp(), evobs(e))).collect();
            if let Err(e) = same_release(&got, &want) {
                return fail("boundary-release", format!("tolerance {}: {}\n{}", tol, e, log.join("\n")));
            }
        } else {
            let base = if s.chance(1, 8) { s.pick(&[std::i64::MAX - 3, std::i64::MIN, -2]) } else { 100 };
            let ts = base.saturating_add(s.range(0, 3));
            let mut ev = any_event(s, ts);
            // make every event distinguishable
            if let Event::Log(ref mut l) = ev {
                l.value = format!("{} #{}", l.value, step);
            }
            if let Event::Telemetry(ref mut t) = ev {
                t.name = format!("{}#{}", t.name, step);
            }
            let o = evobs(&ev);
            log.push(o.clone());
            let mut res = vec![];
            let t = ev.timestamp();
            ensure!(f.process(ev, &mut res).is_ok(), "boundary-error", "event refused");
            let got: Vec<String> = res.iter().map(evobs).collect();
            match t {
                Some(ts) => {
                    m.holds.entry(ts).or_insert((0, vec![])).1.push(o);
                    ensure!(got.is_empty(), "boundary-early", "an event is released without a pulse: {:?}\n{}", got, log.join("\n"));
                }
                None => {
                    raws += 1;
                    ensure!(got == vec![o.clone()], "boundary-raw", "raw event {} comes out as {:?}", o, got);
                }
            }
        }
    }
    c.nontrivial = released_n >= 2 && pulses >= 2;
    c.label_if(raws > 0, "raw");
    c.label_if(!m.holds.is_empty(), "held-at-end");
    c.sample(|| format!("tolerance {}: {}", tol, log.join("; ")));
    Ok(())
}

fn boundary_run(s: &mut Src, c: &mut Ctx) -> Res {
    let tol = s.usize(0, 3);
    let ups = s.usize(1, 3);
    let (mut tx, rx, _dir) = big_queue();
    let tap = Tap::new();
    let chans = tap.chans();
    let sources: Vec<String> = (0..ups).map(|i| format!("s{}", i)).collect();
    let th = thread::spawn(move || {
        let mut f = fb_filter(tol);
        f.run(rx, sources, chans);
    });
    let n = s.usize(0, 15);
    let mut sent: BTreeMap<i64, Vec<String>> = BTreeMap::new();
    let mut raws = vec![];
    let mut pulses = 0;
    let mut left = ups;
    let mut total = 0;
    for step in 0..n {
        match s.weighted(&[6, 3, 1]) {
            0 => {
                let ts = 100 + s.range(0, 2);
                let mut ev = any_event(s, ts);
                if let Event::Log(ref mut l) = ev {
                    l.value = format!("{} #{}", l.value, step);
                }
                if let Event::Telemetry(ref mut t) = ev {
                    t.name = format!("{}#{}", t.name, step);
                }
                match ev.timestamp() {
                    Some(t) => sent.entry(t).or_insert_with(Vec::new).push(evobs(&ev)),
                    None => raws.push(evobs(&ev)),
                }
                total += 1;
                tx.send(ev).ok();
            }
            1 => {
                pulses += 1;
                tx.send(Event::TimerFlush(pulses)).ok();
            }
            _ => {
                if left > 1 {
                    left -= 1;
                    tx.send(Event::Shutdown).ok();
                }
            }
        }
    }
    for _ in 0..left {
        tx.send(Event::Shutdown).ok();
    }
    let done = join_within(Duration::from_secs(20), move || th.join().is_ok());
    ensure!(done == Some(Ok(true)), "boundary-run-ends", "the filter does not end after its upstreams: {:?}", take_panics());
    let out = tap.drain();
    ensure!(out.last() == Some(&Event::Shutdown), "boundary-run-shutdown", "the last event out is {:?}", out.last().map(evobs));
    let n_sd = out.iter().filter(|e| **e == Event::Shutdown).count();
    ensure!(n_sd == 1, "boundary-run-shutdown", "{} shutdowns come out of a filter with {} upstreams", n_sd, ups);
    let fl: Vec<&Event> = out.iter().filter(|e| e.is_timer_flush()).collect();
    ensure!(fl.len() as u64 == pulses, "boundary-run-pulses", "{} pulses out of {}", fl.len(), pulses);
    let mut got: BTreeMap<i64, Vec<String>> = BTreeMap::new();
    let mut got_raw = vec![];
    for e in &out {
        match *e {
            Event::TimerFlush(_) | Event::Shutdown => {}
            ref e => match e.timestamp() {
                Some(t) => got.entry(t).or_insert_with(Vec::new).push(evobs(e)),
                None => got_raw.push(evobs(e)),
            },
        }
    }
    ensure!(got == sent, "boundary-run-events", "tolerance {}, sent {:?}, came out {:?}", tol, sent, got);
    ensure!(got_raw == raws, "boundary-run-raws", "raw events sent {:?}, came out {:?}", raws, got_raw);
    c.nontrivial = total >= 2;
    c.label_if(ups > 1, "several-upstreams");
    c.sample(|| format!("tolerance {}, {} upstreams, {} events, {} pulses", tol, ups, total, pulses));
    Ok(())
}

// ------------------------------------------------------------------------- C11

/// seconds since the epoch of an ISO 8601 instant with numeric offset
pub fn iso_secs(t: &str) -> Option<i64> {
    let b: Vec<char> = t.chars().collect();
    let (neg, start) = match b.get(0)? {
        '-' => (true, 1),
        '+' => (false, 1),
        _ => (false, 0),
    };
    let rest: String = b[start..].iter().collect();
    let ti = rest.find('T')?;
    let d: Vec<&str> = rest[..ti].split('-').collect();
    if d.len() != 3 || d[0].len() < 4 || d[1].len() != 2 || d[2].len() != 2 {
        return None;
    }
    let time = &rest[ti + 1..];
    let time = if time.ends_with('Z') {
        &time[..time.len() - 1]
    } else if time.ends_with("+00:00") {
        &time[..time.len() - 6]
    } else {
        return None;
    };
    // fractions of a second only as zeros
    let mut parts = time.splitn(2, '.');
    let hms: Vec<&str> = parts.next()?.split(':').collect();
    if let Some(f) = parts.next() {
        if f.is_empty() || !f.chars().all(|c| c == '0') {
            return None;
        }
    }
    if hms.len() != 3 || hms.iter().any(|x| x.len() != 2) {
        return None;
    }
    let y: i64 = d[0].parse().ok()?;
    let y = if neg { -y } else { y };
    let m: i64 = d[1].parse().ok()?;
    let dd: i64 = d[2].parse().ok()?;
    // days from civil
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = if y2 >= 0 { y2 } else { y2 - 399 } / 400;
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + dd - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146_097 + doe - 719_468;
    let h: i64 = hms[0].parse().ok()?;
    let mi: i64 = hms[1].parse().ok()?;
    let se: i64 = hms[2].parse().ok()?;
    Some(days * 86_400 + h * 3600 + mi * 60 + se)
}

/// the range of instants that chrono can show
pub const MAX_TIME: i64 = 8_210_298_412_799;
pub const MIN_TIME: i64 = -8_334_632_851_200;

pub fn log_time(s: &mut Src) -> i64 {
    match s.weighted(&[5, 2, 1, 1]) {
        0 => s.range(0, 2_000_000_000),
        1 => s.range(-5_000_000_000, 5_000_000_000),
        2 => s.u64() as i64,
        _ => s.pick(&[0, -1, MAX_TIME, MAX_TIME + 1, MIN_TIME, MIN_TIME - 1, std::i64::MAX, std::i64::MIN, 253_402_300_799, 253_402_300_800, -62_135_596_801]),
    }
}

fn json_text(s: &mut Src, depth: u32) -> String {
    let pick = if depth == 0 { s.weighted(&[2, 2, 1, 1]) } else { s.weighted(&[2, 2, 1, 1, 2, 2]) };
    match pick {
        0 => serde_json::to_string(&text(s, 6)).unwrap(),
        1 => format!("{}", s.range(-1000, 1000)),
        2 => s.pick(&["true", "false", "null", "1.5", "1e3", "18446744073709551615", "-9223372036854775808", "0.1", "1e400"]).to_string(),
        3 => s.pick(&["\"\\u00e9\"", "\"\\n\"", "\"\""]).to_string(),
        4 => {
            let v = s.vec(0, 3, |s| json_text(s, depth - 1));
            format!("[{}]", v.join(","))
        }
        _ => json_object(s, depth - 1),
    }
}

pub fn json_object(s: &mut Src, depth: u32) -> String {
    let ws = s.pick(&["", " ", "\n"]);
    let v = s.vec(0, 4, |s| {
        let k = s.pick(&["a", "b", "time", "path", "tags", "message", "f0", "f1", "é", ""]);
        format!("{}{}:{}{}", serde_json::to_string(k).unwrap(), ws, ws, json_text(s, depth))
    });
    format!("{}{{{}}}{}", ws, v.join(","), ws)
}

fn jsonenc(s: &mut Src, c: &mut Ctx) -> Res {
    let parse = s.chance(2, 3);
    let ftags = tags(s, 3);
    let mut f = JSONEncodeFilter::new(JSONEncodeFilterConfig {
        config_path: Some("filters.j".to_string()),
        forwards: vec![],
        parse_line: parse,
        tags: tagmap(&ftags),
    });
    if s.chance(1, 8) {
        let ev = match s.draw(3) {
            0 => Event::Telemetry(telem(s, 5)),
            1 => raw(s),
            _ => Event::TimerFlush(s.u64()),
        };
        let mut res = vec![];
        ensure!(f.process(ev.clone(), &mut res).is_ok(), "json-error", "error");
        ensure!(res.iter().map(evobs).collect::<Vec<_>>() == vec![evobs(&ev)], "json-other", "{} came out as {:?}", evobs(&ev), res);
        c.label("other-event");
        return Ok(());
    }
    let t = log_time(s);
    let path = text(s, 8);
    let value = match s.weighted(&[3, 4, 1, 1]) {
        0 => text(s, 12),
        1 => json_object(s, 2),
        2 => json_text(s, 2),
        _ => {
            let mut o = json_object(s, 1);
            let cut = s.draw(o.chars().count() as u64 + 1) as usize;
            o = o.chars().take(cut).collect();
            o.push_str(s.pick(&["", "x", "}", " {}"]));
            o
        }
    };
    let etags = tags(s, 3);
    let mut l = LogLine::new(path.clone(), value.clone()).time(t);
    for (k, v) in &etags {
        l = l.overlay_tag(k.clone(), v.clone());
    }
    let mut fields: BTreeMap<String, String> = BTreeMap::new();
    let nf = s.usize(0, 3);
    for _ in 0..nf {
        let k = s.pick(&["f0", "f1", "a", "message", "time", "path", "tags", "é"]).to_string();
        let v = text(s, 5);
        fields.insert(k.clone(), v.clone());
        l = l.insert_field(k, v);
    }
    let what = format!("parse={} {} filter tags {:?}", parse, logobs(&l), ftags);
    let mut res = vec![];
    match guard(|| f.process(Event::Log(l), &mut res).is_ok()) {
        Ok(true) => {}
        Ok(false) => return fail("json-error", format!("refused: {}", what)),
        Err(p) => return fail("json-panic", format!("{}: {}", what, p)),
    }
    ensure!(res.len() == 1, "json-one", "{} events for {}", res.len(), what);
    let bytes = match res[0] {
        Event::Raw { ref encoding, ref bytes, ref metadata, ref connection_id, .. } => {
            ensure!(*encoding == Encoding::JSON && metadata.is_none() && connection_id.is_none(), "json-raw", "encoding {:?} metadata {:?} for {}", encoding, metadata, what);
            bytes.clone()
        }
        ref e => return fail("json-raw", format!("{} for {}", evobs(e), what)),
    };
    let got: Value = match serde_json::from_slice(&bytes) {
        Ok(v) => v,
        Err(e) => return fail("json-invalid", format!("{:?} is not JSON: {} for {}", String::from_utf8_lossy(&bytes), e, what)),
    };
    let mut all_tags = ftags.clone();
    for (k, v) in &etags {
        all_tags.insert(k.clone(), v.clone());
    }
    // parsed members first, then fields, then metadata
    let mut exp: Map<String, Value> = Map::new();
    exp.insert("path".to_string(), Value::String(path));
    exp.insert("tags".to_string(), json!(all_tags));
    exp.insert("time".to_string(), Value::String(String::new()));
    for (k, v) in &fields {
        exp.insert(k.clone(), Value::String(v.clone()));
    }
    let mut time_is_ours = !fields.contains_key("time");
    let parsed = if parse { serde_json::from_str::<Value>(&value).ok() } else { None };
    let mut merged = false;
    match parsed {
        Some(Value::Object(o)) => {
            merged = true;
            for (k, v) in o {
                if k == "time" {
                    time_is_ours = false;
                }
                exp.insert(k, v);
            }
        }
        _ => {
            exp.insert("message".to_string(), Value::String(value));
        }
    }
    let mut got_o = match got {
        Value::Object(o) => o,
        g => return fail("json-object", format!("{} for {}", g, what)),
    };
    if time_is_ours {
        match got_o.get("time") {
            Some(&Value::String(ref ts)) => {
                if t >= MIN_TIME && t <= MAX_TIME {
                    ensure!(iso_secs(ts) == Some(t), "json-time", "time {} shown as {:?} ({:?})", t, ts, iso_secs(ts));
                }
            }
            x => return fail("json-time", format!("time {:?} for {}", x, what)),
        }
        got_o.insert("time".to_string(), Value::String(String::new()));
    }
    ensure!(got_o == exp, "json-content", "got {}, expected {} for {}", Value::Object(got_o.clone()), Value::Object(exp.clone()), what);
    c.nontrivial = !etags.is_empty() || !fields.is_empty() || merged;
    c.label_if(merged, "merged-object");
    c.label_if(parse && !merged, "unparsable");
    c.label_if(t < MIN_TIME || t > MAX_TIME, "unrepresentable-time");
    c.sample(|| format!("{} -> {}", what, String::from_utf8_lossy(&bytes)));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            level: "exploration",
            rule: "random event lists around the tolerance boundaries and at extreme timestamps; non-trivial = at least one event kept and one dropped",
            assumptions: &["the clock does not move within a case"],
            subs: vec![Sub { name: "delay", quick: 300_000, thorough: 1_500_000, workers: 0, confirm: 0, f: delay }],
            known: vec![],
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "random histories of events and pulses against a model of the holds, and whole runs of the filter between queues until all upstreams shut down; non-trivial = at least two events",
            assumptions: &[],
            subs: vec![
                Sub { name: "model", quick: 100_000, thorough: 1_000_000, workers: 0, confirm: 0, f: flush_boundary },
                Sub { name: "run", quick: 4_000, thorough: 60_000, workers: 0, confirm: 2, f: boundary_run },
            ],
            known: vec![],
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "random log lines (JSON objects, other JSON, broken JSON, arbitrary text; fields and tags colliding with members; all times), result parsed and compared with an independently built object; non-trivial = tags, fields or a merged object",
            assumptions: &["for times that no calendar date can show only the survival of the filter is required"],
            subs: vec![Sub { name: "encode", quick: 300_000, thorough: 1_500_000, workers: 0, confirm: 0, f: jsonenc }],
            known: vec![],
        },
    ]
}
