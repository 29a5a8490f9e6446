//! C18 InfluxDB, C19 Elasticsearch.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::mock::*;
use crate::p_metric::V;
use crate::p_wave::{parts, Want};
use cernan::metric::{AggregationMethod as K, LogLine};
use cernan::sink::{Elasticsearch, ElasticsearchConfig, InfluxDB, InfluxDBConfig, Sink};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::Duration;

fn open<T: std::fmt::Debug>(v: T) -> bool {
    format!("{:?}", v) == "Open"
}

// ------------------------------------------------------------------------- C18

#[derive(Debug)]
pub struct Line {
    pub name: String,
    pub tags: Tags,
    pub value: f64,
    pub ts: String,
}

/// Strict parse of one line of line protocol (one float field called value).
pub fn line(l: &str) -> Result<Line, String> {
    let cs: Vec<char> = l.chars().collect();
    let mut i = 0;
    let word = |i: &mut usize, stops: &[char], esc: &[char]| {
        let mut o = String::new();
        while *i < cs.len() && !stops.contains(&cs[*i]) {
            if cs[*i] == '\\' && cs.get(*i + 1).map_or(false, |c| esc.contains(c)) {
                *i += 1;
            }
            o.push(cs[*i]);
            *i += 1;
        }
        o
    };
    let name = word(&mut i, &[',', ' '], &[',', ' ']);
    if name.is_empty() {
        return Err("no measurement".into());
    }
    let mut tags = Tags::new();
    while cs.get(i) == Some(&',') {
        i += 1;
        let k = word(&mut i, &[',', ' ', '='], &[',', ' ', '=']);
        if k.is_empty() || cs.get(i) != Some(&'=') {
            return Err(format!("tag key {:?}", k));
        }
        i += 1;
        let v = word(&mut i, &[',', ' ', '='], &[',', ' ', '=']);
        if v.is_empty() || cs.get(i) == Some(&'=') {
            return Err(format!("value {:?} of tag {:?}", v, k));
        }
        if tags.insert(k.clone(), v).is_some() {
            return Err(format!("tag {:?} twice", k));
        }
    }
    let rest: String = cs[i.min(cs.len())..].iter().collect();
    let f: Vec<&str> = rest.split(' ').collect();
    if f.len() != 3 || !f[0].is_empty() || !f[1].starts_with("value=") {
        return Err(format!("fields {:?}", rest));
    }
    let v = &f[1][6..];
    if !v.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c)) {
        return Err(format!("field value {:?}", v));
    }
    let value: f64 = v.parse().map_err(|_| format!("field value {:?}", v))?;
    f[2].parse::<i64>().map_err(|_| format!("timestamp {:?}", f[2]))?;
    Ok(Line { name, tags, value, ts: f[2].to_string() })
}

fn odd(s: &mut Src) -> String {
    let a = chars("ab,= \né\"'.:/#");
    format!("x{}", s.string(&a, 0, 4))
}

fn odd_tags(s: &mut Src, hi: usize) -> Tags {
    let mut t = tags(s, hi);
    if s.chance(1, 4) {
        let k = odd(s);
        let v = if s.chance(1, 4) { String::new() } else { odd(s) };
        t.insert(k, v);
    }
    t
}

fn stamp(s: &mut Src) -> i64 {
    match s.weighted(&[8, 2, 1, 1]) {
        0 => 1_500_000_000 + s.range(0, 4),
        1 => s.range(-3, 3),
        2 => -(s.draw(2_000_000_000) as i64),
        _ => s.range(0, 9_000_000_000),
    }
}

const PCTS: [(&str, f64); 6] = [("0.25", 0.25), ("0.5", 0.5), ("0.75", 0.75), ("0.9", 0.9), ("0.99", 0.99), ("1", 1.0)];

pub fn influx_want(p: &Pt, sink_tags: &Tags) -> Vec<(String, Tags, Want, String)> {
    let mut v = V::new(p.kind, p.vals[0], &p.bounds);
    for x in &p.vals[1..] {
        v.insert(*x);
    }
    let esc = |x: &str| x.replace('\n', "\\n");
    let mut t = Tags::new();
    for (k, v) in sink_tags.iter().chain(p.tags.iter()) {
        t.insert(k.clone(), v.clone());
    }
    let t: Tags = t.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (esc(k), esc(v))).collect();
    let pc: Vec<(String, f64)> = PCTS.iter().map(|&(l, q)| (l.to_string(), q)).collect();
    let ts = (p.ts as i128 * 1_000_000_000).to_string();
    parts(&v, &pc)
        .into_iter()
        .filter(|(s, w)| {
            let fin = if let Want::Exact(x) = *w { x.is_finite() } else { true };
            fin && !(p.kind == K::Summarize && (s == ".count" || s == ".mean"))
        })
        .map(|(s, w)| {
            // bins are called .le_BOUND here
            let s = if p.kind == K::Histogram {
                if s == "_pos_inf" { ".le_inf".to_string() } else { format!(".le{}", s) }
            } else {
                s
            };
            (esc(&format!("{}{}", p.name, s)), t.clone(), w, ts.clone())
        })
        .collect()
}

fn failing(s: &mut Src) -> Ans {
    match s.weighted(&[3, 3, 1, 1, 2]) {
        0 => Ans::Reply(s.pick(&[500, 503]), "{\"error\":\"x\"}".into()),
        1 => Ans::Reply(s.pick(&[400, 404, 401, 429]), "{\"error\":\"x\"}".into()),
        2 => Ans::Close,
        3 => Ans::Cut(s.pick(&[204, 500])),
        _ => Ans::Last(s.pick(&[500, 400]), "no".into()),
    }
}

fn influx(s: &mut Src, c: &mut Ctx) -> Res {
    let port = port(c.worker);
    let sink_tags = odd_tags(s, 2);
    let db = s.pick(&["cernan", "db2", "x_y"]).to_string();
    let mock = Mock::new(port, Box::new(|_| Ans::Reply(204, String::new())));
    let sink = InfluxDB::init(InfluxDBConfig {
        secure: false,
        db: db.clone(),
        host: "127.0.0.1".into(),
        port,
        config_path: None,
        tags: tagmap(&sink_tags),
        flush_interval: 60,
    });
    let mut log = vec![format!("sink tags {:?}", sink_tags)];
    let mut want: Vec<(String, Tags, Want, String)> = vec![];
    let n = s.usize(1, 16);
    let (mut fails, mut specials, mut flushes, mut outages) = (0, 0, 0, 0);
    let mut sink = Some(sink);
    for i in 0..=n {
        let last = i == n;
        if !last && !s.chance(1, 4) {
            let k = kind(s);
            let name = if s.chance(1, 4) { odd(s) } else { name(s) };
            let nv = many(s, 3);
            let p = Pt {
                name,
                kind: k,
                tags: odd_tags(s, 3),
                ts: stamp(s),
                persist: s.chance(1, 4),
                vals: (0..nv).map(|_| if k == K::Set || k == K::Sum { anyf(s) } else { exact(s) }).collect(),
                bounds: if k == K::Histogram && s.chance(1, 2) { Some(bounds(s)) } else { None },
                error: None,
            };
            log.push(format!("deliver {:?} {:?} {:?} {:?} ts={}", p.name, p.kind, p.tags, p.vals, p.ts));
            specials += p.name.contains(|c| c == ',' || c == ' ' || c == '\n') as usize;
            want.extend(influx_want(&p, &sink_tags));
            sink.as_mut().unwrap().deliver(build(&p));
            continue;
        }
        // a flush (the last one comes from shutdown)
        let mut script: VecDeque<Ans> = (0..s.pick(&[0usize, 0, 0, 1, 2, 4])).map(|_| failing(s)).collect();
        fails += script.len();
        log.push(format!("flush, answers {:?}", script));
        let fin = s.pick(&[204u16, 204, 200]);
        mock.answer(Box::new(move |_| script.pop_front().unwrap_or_else(|| Ans::Reply(fin, "".into()))));
        if s.chance(1, 10) {
            mock.outage(8);
            outages += 1;
        }
        flushes += 1;
        let sk = sink.take().unwrap();
        let r = join_within(Duration::from_secs(30), move || {
            let mut sk = sk;
            if last {
                sk.shutdown();
                None
            } else {
                sk.flush();
                Some(sk)
            }
        });
        match r {
            None => return fail("influx-stuck", format!("the flush does not end\n{}", log.join("\n"))),
            Some(Err(())) => return fail("influx-panic", format!("the flush panicked\n{}", log.join("\n"))),
            Some(Ok(x)) => sink = x,
        }
        let seen = mock.seen();
        let accepted: Vec<&Seen> = seen
            .iter()
            .filter(|x| match x.answer {
                Ans::Reply(st, _) | Ans::Last(st, _) => st < 300,
                _ => false,
            })
            .collect();
        ensure!(accepted.len() <= 1, "influx-repeat", "{} bodies were accepted in one flush\n{}", accepted.len(), log.join("\n"));
        if accepted.is_empty() {
            ensure!(want.is_empty(), "influx-lost", "the flush ended and no body was accepted\n{}\n{:?}", log.join("\n"), seen);
            continue;
        }
        let url = format!("POST /write?db={} HTTP/1.1", db);
        for x in &seen {
            ensure!(x.head.starts_with(&url), "influx-url", "request {:?}, expected {:?}", x.head, url);
            ensure!(x.body == accepted[0].body, "influx-changed", "the body changed between attempts\n{}", log.join("\n"));
        }
        let text = match String::from_utf8(accepted[0].body.clone()) {
            Ok(t) => t,
            Err(e) => return fail("influx-syntax", e.to_string()),
        };
        ensure!(text.is_empty() || text.ends_with('\n'), "influx-syntax", "the last line is not terminated: {:?}", text);
        let mut got = vec![];
        for l in text.lines() {
            match line(l) {
                Ok(x) => got.push(x),
                Err(e) => return fail("influx-syntax", format!("{} in {:?}\n{}", e, l, log.join("\n"))),
            }
        }
        // lines may come in any order, those of one series and time in theirs
        let mut exp: BTreeMap<(String, Tags, String), VecDeque<Want>> = BTreeMap::new();
        for (nm, t, w, ts) in want.drain(..) {
            exp.entry((nm, t, ts)).or_insert_with(VecDeque::new).push_back(w);
        }
        for g in got {
            let key = (g.name.clone(), g.tags.clone(), g.ts.clone());
            match exp.get_mut(&key).and_then(|q| q.pop_front()) {
                None => return fail("influx-extra", format!("unexpected {:?}\n{}\n{}", g, text, log.join("\n"))),
                Some(w) => ensure!(w.ok(g.value), "influx-value", "{:?}, expected {:?}\n{}", g, w, log.join("\n")),
            }
        }
        for (k, q) in exp {
            ensure!(q.is_empty(), "influx-missing", "no line for {:?} {:?}\n{}\n{}", k, q, text, log.join("\n"));
        }
    }
    c.nontrivial = log.len() > 3 && (flushes > 1 || fails > 0);
    c.label_if(fails > 0, "refused-bodies");
    c.label_if(specials > 0, "special-names");
    c.label_if(outages > 0, "outage");
    c.sample(|| log.join("; "));
    Ok(())
}

fn influx_valve(s: &mut Src, c: &mut Ctx) -> Res {
    let port = port(c.worker);
    let mock = Mock::new(port, Box::new(|_| Ans::Reply(204, String::new())));
    let mut sink = InfluxDB::init(InfluxDBConfig {
        secure: false,
        host: "127.0.0.1".into(),
        port,
        ..InfluxDBConfig::default()
    });
    let n = s.pick(&[100_001usize, 100_000, 100_002]);
    let t = build(&Pt { name: "a".into(), kind: K::Set, tags: Tags::new(), ts: 7, persist: false, vals: vec![1.0], bounds: None, error: None });
    for i in 0..n {
        ensure!(open(sink.valve_state()) == (i <= 100_000), "influx-valve", "with {} points the valve is {:?}", i, sink.valve_state());
        sink.deliver(t.clone());
    }
    ensure!(open(sink.valve_state()) == (n <= 100_000), "influx-valve", "with {} points the valve is {:?}", n, sink.valve_state());
    sink.flush();
    ensure!(open(sink.valve_state()), "influx-valve", "the valve is closed after a flush");
    let seen = mock.seen();
    let lines: usize = seen.iter().map(|x| x.body.iter().filter(|b| **b == b'\n').count()).sum();
    ensure!(seen.len() == 1 && lines == n, "influx-lost", "{} points, {} lines in {} bodies", n, lines, seen.len());
    c.nontrivial = true;
    c.sample(|| format!("{} points", n));
    Ok(())
}

// ------------------------------------------------------------------------- C19

/// civil date of a day number (Howard Hinnant's algorithm)
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

pub fn date(t: i64) -> String {
    let (y, m, d) = civil(t.div_euclid(86_400));
    format!("{:04}-{:02}-{:02}", y, m, d)
}

fn rfc(t: i64) -> String {
    let r = t.rem_euclid(86_400);
    format!("{}T{:02}:{:02}:{:02}+00:00", date(t), r / 3600, r / 60 % 60, r % 60)
}

struct Doc {
    line: LogLine,
    id: Option<String>,
    failures: u8,
}

fn es_time(s: &mut Src) -> i64 {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => 1_500_000_000 + s.range(0, 200_000),
        1 => s.range(-100_000, 100_000),
        2 => s.range(-60_000_000_000, 250_000_000_000),
        _ => s.pick(&[std::i64::MAX, std::i64::MIN, 253_402_300_800, -62_135_596_801, 951_782_400, 4_107_542_400 - 1]),
    }
}

pub fn bulk_answer(ids: &[String], verdicts: &BTreeMap<String, u16>, shuffle: u64) -> String {
    let mut items: Vec<Value> = ids
        .iter()
        .filter_map(|id| {
            verdicts.get(id).map(|st| {
                if *st < 300 {
                    json!({"index": {"_index": "i", "_type": "t", "_id": id, "_version": 1, "result": "created", "_shards": {"total": 2, "successful": 1, "failed": 0}, "created": true, "status": st}})
                } else {
                    json!({"index": {"_index": "i", "_type": "t", "_id": id, "status": st, "error": {"type": "mapper_parsing_exception", "reason": "r"}}})
                }
            })
        })
        .collect();
    let errors = items.iter().any(|i| i["index"]["error"].is_object());
    if shuffle > 0 && !items.is_empty() {
        let k = (shuffle as usize) % items.len();
        items.rotate_left(k);
    }
    json!({"took": 3, "errors": errors, "items": items}).to_string()
}

pub fn ids_of(body: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(body)
        .split('\n')
        .enumerate()
        .filter(|(i, _)| i % 2 == 0)
        .filter_map(|(_, l)| serde_json::from_str::<Value>(l).ok())
        .filter_map(|v| v["index"]["_id"].as_str().map(|x| x.to_string()))
        .collect()
}

fn elastic(s: &mut Src, c: &mut Ctx) -> Res {
    let port = port(c.worker);
    let sink_tags = tags(s, 2);
    let prefix = if s.chance(1, 2) { Some(s.pick(&["pre", "prod-logs", ""]).to_string()) } else { None };
    let ty = s.pick(&["payload", "doc"]).to_string();
    let limit = s.pick(&[10u8, 0, 1, 2, 3]);
    let mock = Mock::new(port, Box::new(|_| Ans::Close));
    let sink = Elasticsearch::init(ElasticsearchConfig {
        config_path: None,
        index_prefix: prefix.clone(),
        index_type: ty.clone(),
        secure: false,
        delivery_attempt_limit: limit,
        host: "127.0.0.1".into(),
        port: port as usize,
        flush_interval: 1,
        tags: tagmap(&sink_tags),
    });
    let mut pend: Vec<Doc> = vec![];
    let mut settled: BTreeSet<String> = BTreeSet::new();
    let mut log = vec![format!("prefix {:?} limit {} sink tags {:?}", prefix, limit, sink_tags)];
    let n = s.usize(1, 14);
    let (mut flushes, mut partial, mut whole, mut dropped) = (0, 0, 0, 0);
    let mut sink = Some(sink);
    for i in 0..=n {
        let last = i == n;
        if !last && !s.chance(2, 5) {
            let t = es_time(s);
            let mut l = logline(s, t);
            for _ in 0..s.pick(&[0usize, 0, 1, 2]) {
                let k = if s.chance(1, 3) { tag_key(s) } else { s.pick(&["f1", "f 2", "f\"3"]).to_string() };
                let v = text(s, 6);
                l = l.insert_field(k, v);
            }
            log.push(format!("deliver {}", logobs(&l)));
            sink.as_mut().unwrap().deliver_line(l.clone());
            pend.push(Doc { line: l, id: None, failures: 0 });
            continue;
        }
        // what the server does with the request
        let mode = s.weighted(&[6, 1, 1, 1, 1, 1]);
        let verdicts: Vec<u16> = (0..pend.len().max(1)).map(|_| s.pick(&[201u16, 201, 201, 200, 400, 429, 0])).collect();
        let shuffle = if s.chance(1, 4) { s.draw(5) } else { 0 };
        let v2 = verdicts.clone();
        // an item about a document the sink does not hold
        let alien = if s.chance(1, 8) {
            Some((s.pick(&["abc", "", "6f0b1d0e-3a5c-4d0e-9d55-000000000000"]).to_string(), s.pick(&[201u16, 400])))
        } else {
            None
        };
        let junk = s.pick(&["", "{}", "[]", "{\"took\":1", "{\"took\":1,\"errors\":true}", "hello"]).to_string();
        let err_ty = s.pick(&["index_not_found_exception", "parsing_exception", "mapper_parsing_exception", "action_request_validation_exception", "other"]).to_string();
        let code = s.pick(&[500u16, 400, 404, 503, 413]);
        mock.answer(Box::new(move |body| match mode {
            0 => {
                let mut ids = ids_of(body);
                let mut m: BTreeMap<String, u16> = ids.iter().cloned().zip(v2.iter().cloned()).filter(|x| x.1 > 0).collect();
                if let Some((ref id, st)) = alien {
                    ids.push(id.clone());
                    m.insert(id.clone(), st);
                }
                Ans::Reply(200, bulk_answer(&ids, &m, shuffle))
            }
            1 => Ans::Reply(200, junk.clone()),
            2 => Ans::Reply(code, json!({"error": {"type": err_ty, "reason": "r", "index": "i", "resource.id": "i", "line": 1, "col": 2}, "status": code}).to_string()),
            3 => Ans::Reply(code, junk.clone()),
            4 => Ans::Close,
            _ => Ans::Cut(200),
        }));
        log.push(format!("flush, mode {} verdicts {:?}", mode, verdicts));
        flushes += 1;
        let sk = sink.take().unwrap();
        let r = join_within(Duration::from_secs(30), move || {
            let mut sk = sk;
            if last {
                sk.shutdown();
                None
            } else {
                sk.flush();
                Some(sk)
            }
        });
        match r {
            None => return fail("es-stuck", format!("the flush does not end\n{}", log.join("\n"))),
            Some(Err(())) => return fail("es-panic", format!("the flush panicked\n{}", log.join("\n"))),
            Some(Ok(x)) => sink = x,
        }
        let seen = mock.seen();
        if pend.is_empty() {
            ensure!(seen.iter().all(|x| x.body.is_empty()), "es-extra", "a request with nothing pending\n{}\n{:?}", log.join("\n"), seen);
            continue;
        }
        ensure!(seen.len() == 1, "es-requests", "{} requests in one flush\n{}\n{:?}", seen.len(), log.join("\n"), seen);
        let body = String::from_utf8_lossy(&seen[0].body).to_string();
        ensure!(seen[0].head.starts_with("POST /_bulk "), "es-url", "request {:?}", seen[0].head);
        ensure!(body.ends_with('\n'), "es-syntax", "the last line is not terminated: {:?}", body);
        let ls: Vec<&str> = body[..body.len() - 1].split('\n').collect();
        ensure!(
            ls.len() == 2 * pend.len(),
            "es-count",
            "{} lines for {} documents\n{}\n{}",
            ls.len(),
            pend.len(),
            body,
            log.join("\n")
        );
        for (d, pair) in pend.iter_mut().zip(ls.chunks(2)) {
            let (h, p): (Value, Value) = match (serde_json::from_str(pair[0]), serde_json::from_str(pair[1])) {
                (Ok(h), Ok(p)) => (h, p),
                _ => return fail("es-syntax", format!("not JSON: {:?}", pair)),
            };
            let id = match h["index"]["_id"].as_str() {
                Some(i) => i.to_string(),
                None => return fail("es-syntax", format!("no id in {:?}", pair[0])),
            };
            match d.id {
                Some(ref old) => ensure!(*old == id, "es-id", "{} is sent again as {}\n{}", old, id, log.join("\n")),
                None => d.id = Some(id.clone()),
            }
            ensure!(!settled.contains(&id), "es-again", "{} is settled and sent again\n{}", id, log.join("\n"));
            let in_calendar = d.line.time >= -62_135_596_800 && d.line.time < 253_402_300_800;
            let mut want = serde_json::Map::new();
            want.insert("uuid".into(), Value::String(id.clone()));
            want.insert("path".into(), Value::String(d.line.path.clone()));
            want.insert("payload".into(), Value::String(d.line.value.clone()));
            for (k, v) in &sink_tags {
                want.insert(k.clone(), Value::String(v.clone()));
            }
            for (k, v) in d.line.tags(&cernan::metric::TagMap::default()) {
                want.insert(k.clone(), Value::String(v.clone()));
            }
            for (k, v) in &d.line.fields {
                want.insert(k.clone(), Value::String(v.clone()));
            }
            let mut p = p;
            let idx;
            if in_calendar {
                want.insert("timestamp".into(), Value::String(rfc(d.line.time)));
                idx = match prefix {
                    Some(ref x) => format!("{}-{}", x, date(d.line.time)),
                    None => date(d.line.time),
                };
            } else {
                ensure!(p["timestamp"].is_string(), "es-doc", "no timestamp in {}", pair[1]);
                p.as_object_mut().unwrap().remove("timestamp");
                idx = h["index"]["_index"].as_str().unwrap_or("").to_string();
                let px = prefix.clone().map_or("".to_string(), |x| format!("{}-", x));
                ensure!(idx.starts_with(&px) && idx.len() > px.len(), "es-index", "index {:?}", idx);
            }
            ensure!(p == Value::Object(want.clone()), "es-doc", "document {}\nexpected {}\n{}", p, Value::Object(want.clone()), log.join("\n"));
            ensure!(
                h == json!({"index": {"_index": idx, "_type": ty, "_id": id}}),
                "es-index",
                "header {}, expected index {:?} type {:?}",
                pair[0],
                idx,
                ty
            );
        }
        let ids: BTreeSet<&String> = pend.iter().map(|d| d.id.as_ref().unwrap()).collect();
        ensure!(ids.len() == pend.len(), "es-id", "identifiers are not unique\n{}", body);
        if mode == 0 {
            for (d, v) in pend.iter_mut().zip(&verdicts) {
                if *v >= 300 {
                    d.failures += 1;
                }
            }
            let mut keep = vec![];
            let all_ok = verdicts.iter().take(pend.len()).all(|v| *v > 0 && *v < 300);
            partial += (!all_ok) as usize;
            for (d, v) in pend.drain(..).zip(&verdicts) {
                if (*v > 0 && *v < 300) || d.failures > limit {
                    dropped += (d.failures > limit) as usize;
                    settled.insert(d.id.unwrap());
                } else {
                    keep.push(d);
                }
            }
            pend = keep;
        } else {
            whole += 1;
        }
    }
    c.nontrivial = flushes > 1 && log.len() > flushes + 1;
    c.label_if(partial > 0, "partial-failure");
    c.label_if(whole > 0, "whole-failure");
    c.label_if(dropped > 0, "attempts-exhausted");
    c.sample(|| log.join("; "));
    Ok(())
}

fn elastic_valve(s: &mut Src, c: &mut Ctx) -> Res {
    let port = port(c.worker);
    let bad: BTreeSet<usize> = (0..s.usize(0, 3)).map(|_| s.usize(0, 9_999)).collect();
    let b2 = bad.clone();
    let mock = Mock::new(
        port,
        Box::new(move |body| {
            let ids = ids_of(body);
            let m = ids.iter().enumerate().map(|(i, id)| (id.clone(), if b2.contains(&i) { 429 } else { 201 })).collect();
            Ans::Reply(200, bulk_answer(&ids, &m, 0))
        }),
    );
    let mut sink = Elasticsearch::init(ElasticsearchConfig { port: port as usize, ..ElasticsearchConfig::default() });
    let n = s.pick(&[10_001usize, 10_000, 10_003]);
    for i in 0..n {
        ensure!(open(sink.valve_state()) == (i <= 10_000), "es-valve", "with {} lines the valve is {:?}", i, sink.valve_state());
        sink.deliver_line(LogLine::new("p", &format!("{}", i)).time(5));
    }
    ensure!(open(sink.valve_state()) == (n <= 10_000), "es-valve", "with {} lines the valve is {:?}", n, sink.valve_state());
    sink.flush();
    ensure!(open(sink.valve_state()), "es-valve", "the valve is closed after a flush");
    mock.seen();
    sink.flush();
    let again: Vec<String> = mock
        .seen()
        .iter()
        .flat_map(|x| {
            String::from_utf8_lossy(&x.body)
                .lines()
                .filter_map(|l| serde_json::from_str::<Value>(l).ok())
                .filter_map(|v| v["payload"].as_str().map(|x| x.to_string()))
                .collect::<Vec<_>>()
        })
        .collect();
    let want: Vec<String> = bad.iter().map(|i| i.to_string()).collect();
    ensure!(again == want, "es-count", "sent again: {:?}, expected {:?}", again, want);
    c.nontrivial = true;
    c.sample(|| format!("{} lines, {:?} fail", n, bad));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            level: "exploration",
            rule: "random histories of deliveries and flushes through the real sink to a scripted HTTP server which refuses, closes, cuts its answers or is away; every body parsed strictly as line protocol and compared with a model; non-trivial = points and several flushes or refused bodies",
            assumptions: &[
                "measurement names and tag keys are not empty, do not start with # and hold no backslash",
                "a newline in a name or tag is written as backslash n, an empty tag value is left out, values that are not finite are left out",
                "histogram and summary samples are finite",
            ],
            subs: vec![
                Sub { name: "influx", quick: 1_500, thorough: 40_000, workers: 0, confirm: 1, f: influx },
                Sub { name: "valve", quick: 3, thorough: 10, workers: 3, confirm: 1, f: influx_valve },
            ],
            known: vec![],
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "random histories of log lines and flushes through the real sink to a scripted bulk endpoint with per-item verdicts and whole-request failures; every request parsed and compared with a model of what is pending; non-trivial = documents and several flushes",
            assumptions: &[
                "tags and fields are not called uuid, path, payload or timestamp",
                "a document is permanently rejected when it has failed more often than the attempt limit",
                "timestamps and index dates are compared for the years 1 to 9999",
            ],
            subs: vec![
                Sub { name: "elastic", quick: 1_500, thorough: 40_000, workers: 0, confirm: 1, f: elastic },
                Sub { name: "valve", quick: 3, thorough: 16, workers: 3, confirm: 1, f: elastic_valve },
            ],
            known: vec![],
        },
    ]
}
