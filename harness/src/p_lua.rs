//! C12 programmable (Lua) filter: generated scripts against an interpreter of
//! the same program.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use cernan::filter::{Filter, FilterError, ProgrammableFilter, ProgrammableFilterConfig};
use cernan::metric::{AggregationMethod, Event, LogLine, TagMap, Telemetry};
use std::collections::BTreeMap;
use std::fs;
use std::thread;
use std::time::Duration;

type Map = BTreeMap<String, String>;

/// a text argument
#[derive(Clone, Debug)]
enum E {
    Lit(Vec<u8>),
    Int(i64),
    Bool(bool),
    Var(usize),
    Count,
    Nil,
    Missing,
}

/// an index argument
#[derive(Clone, Debug)]
enum I {
    N(i64),
    Loop,
    Whole(i64),
    Broken,
    Text(i64),
    Word,
    Missing,
}

/// a number argument
#[derive(Clone, Debug)]
enum N {
    F(f64),
    Count,
    Var(usize),
    Text(i64),
    Nil,
    Missing,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Get {
    MetricName,
    LogValue,
    LogPath,
    LogTag,
    LogField,
    MetricTag,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Put {
    MetricTag,
    LogTag,
    LogField,
    DropMetricTag,
    DropLogTag,
    LogValue,
    Name,
}

#[derive(Clone, Debug)]
enum S {
    Get(Get, usize, I, E),
    Query(usize, I, f64),
    Put(Put, Option<usize>, I, E, E),
    PushLog(E),
    PushMetric(E, N),
    ClearLogs,
    ClearMetrics,
    BadPayload(usize, usize),
    Inc,
    Error(usize),
    IfVar(usize, Vec<S>, Vec<S>),
    IfCount(i64, i64, Vec<S>),
    For(usize, Vec<S>),
    Pcall(Vec<S>),
}

const FNS: [&str; 18] = [
    "set_metric_name", "clear_logs", "clear_metrics", "log_remove_tag", "log_set_tag", "log_tag_value",
    "log_set_field", "log_set_value", "log_field_value", "log_value", "log_path", "metric_query",
    "metric_remove_tag", "metric_set_tag", "metric_tag_value", "push_log", "push_metric", "metric_name",
];
const BAD: [&str; 4] = ["nil, 1, \"a\", \"b\"", "", "\"pyld\", 1, \"a\", \"b\"", "{}, 1, \"a\", \"b\""];
const ERR: [&str; 4] = ["error(\"boom\")", "error({})", "error(nil)", "local x = nil; x = x + 1"];

fn lit(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for &c in b {
        if c.is_ascii_alphanumeric() {
            o.push(c as char);
        } else {
            o.push_str(&format!("\\{:03}", c));
        }
    }
    o.push('"');
    o
}

fn show_e(e: &E) -> Option<String> {
    Some(match *e {
        E::Lit(ref b) => lit(b),
        E::Int(i) => format!("{}", i),
        E::Bool(b) => format!("{}", b),
        E::Var(i) => format!("s{}", i),
        E::Count => "count".to_string(),
        E::Nil => "nil".to_string(),
        E::Missing => return None,
    })
}

fn show_i(i: &I) -> Option<String> {
    Some(match *i {
        I::N(n) => format!("{}", n),
        I::Loop => "i".to_string(),
        I::Whole(n) => format!("{}.0", n),
        I::Broken => "1.5".to_string(),
        I::Text(n) => format!("\"{}\"", n),
        I::Word => "\"one\"".to_string(),
        I::Missing => return None,
    })
}

fn show_n(n: &N) -> Option<String> {
    Some(match *n {
        N::F(f) if f.is_nan() => "(0/0)".to_string(),
        N::F(f) if f.is_infinite() => if f > 0.0 { "(1/0)" } else { "(-1/0)" }.to_string(),
        N::F(f) => format!("{:?}", f),
        N::Count => "count".to_string(),
        N::Var(i) => format!("n{}", i),
        N::Text(i) => format!("\"{}\"", i),
        N::Nil => "nil".to_string(),
        N::Missing => return None,
    })
}

fn call(name: &str, args: Vec<Option<String>>) -> String {
    let mut o = format!("payload.{}(pyld", name);
    for a in args {
        match a {
            Some(a) => {
                o.push_str(", ");
                o.push_str(&a)
            }
            // everything behind a missing argument is missing too
            None => break,
        }
    }
    o.push(')');
    o
}

fn put_name(p: Put) -> &'static str {
    match p {
        Put::MetricTag => "metric_set_tag",
        Put::LogTag => "log_set_tag",
        Put::LogField => "log_set_field",
        Put::DropMetricTag => "metric_remove_tag",
        Put::DropLogTag => "log_remove_tag",
        Put::LogValue => "log_set_value",
        Put::Name => "set_metric_name",
    }
}

fn get_name(g: Get) -> &'static str {
    match g {
        Get::MetricName => "metric_name",
        Get::LogValue => "log_value",
        Get::LogPath => "log_path",
        Get::LogTag => "log_tag_value",
        Get::LogField => "log_field_value",
        Get::MetricTag => "metric_tag_value",
    }
}

fn show(b: &[S], ind: usize, o: &mut String) {
    let pad = "  ".repeat(ind);
    for s in b {
        o.push_str(&pad);
        match *s {
            S::Get(g, v, ref i, ref k) => {
                let two = match g {
                    Get::LogTag | Get::LogField | Get::MetricTag => true,
                    _ => false,
                };
                let mut a = vec![show_i(i)];
                if two {
                    a.push(show_e(k));
                }
                o.push_str(&format!("s{} = {}\n", v, call(get_name(g), a)));
            }
            S::Query(v, ref i, q) => {
                o.push_str(&format!("n{} = {}\n", v, call("metric_query", vec![show_i(i), show_n(&N::F(q))])));
            }
            S::Put(p, v, ref i, ref k, ref x) => {
                let mut a = vec![show_i(i), show_e(k)];
                if p == Put::MetricTag || p == Put::LogTag || p == Put::LogField {
                    a.push(show_e(x));
                }
                if let Some(v) = v {
                    o.push_str(&format!("s{} = ", v));
                }
                o.push_str(&call(put_name(p), a));
                o.push('\n');
            }
            S::PushLog(ref e) => o.push_str(&format!("{}\n", call("push_log", vec![show_e(e)]))),
            S::PushMetric(ref e, ref n) => {
                o.push_str(&format!("{}\n", call("push_metric", vec![show_e(e), show_n(n)])))
            }
            S::ClearLogs => o.push_str("payload.clear_logs(pyld)\n"),
            S::ClearMetrics => o.push_str("payload.clear_metrics(pyld)\n"),
            S::BadPayload(f, a) => o.push_str(&format!("payload.{}({})\n", FNS[f], BAD[a])),
            S::Inc => o.push_str("count = count + 1\n"),
            S::Error(k) => o.push_str(&format!("do {} end\n", ERR[k])),
            S::IfVar(v, ref a, ref b) => {
                o.push_str(&format!("if s{} ~= nil then\n", v));
                show(a, ind + 1, o);
                o.push_str(&format!("{}else\n", pad));
                show(b, ind + 1, o);
                o.push_str(&format!("{}end\n", pad));
            }
            S::IfCount(m, r, ref a) => {
                o.push_str(&format!("if count % {} == {} then\n", m, r));
                show(a, ind + 1, o);
                o.push_str(&format!("{}end\n", pad));
            }
            S::For(n, ref a) => {
                o.push_str(&format!("for i = 1, {} do\n", n));
                show(a, ind + 1, o);
                o.push_str(&format!("{}end\n", pad));
            }
            S::Pcall(ref a) => {
                o.push_str("pcall(function()\n");
                show(a, ind + 1, o);
                o.push_str(&format!("{}end)\n", pad));
            }
        }
    }
}

// ------------------------------------------------------------- generation

fn any_e(s: &mut Src) -> E {
    match s.weighted(&[10, 6, 3, 1, 1, 1, 1, 2]) {
        0 => E::Lit(tag_key(s).into_bytes()),
        1 => E::Var(s.usize(0, 2)),
        2 => E::Lit(text(s, 6).into_bytes()),
        3 => E::Int(s.range(-3, 99)),
        4 => E::Bool(s.chance(1, 2)),
        5 => E::Nil,
        6 => E::Missing,
        _ => match s.draw(3) {
            0 => E::Count,
            1 => E::Lit(vec![b'a', 255, b'b']),
            _ => E::Lit(vec![b'x', 0, b'y']),
        },
    }
}

fn any_i(s: &mut Src, loops: bool) -> I {
    match s.weighted(&[40, 6, 2, 1, 1, 1, 1, if loops { 20 } else { 0 }]) {
        0 => I::N(1),
        1 => I::N(-1),
        2 => I::N(s.range(-4, 4)),
        3 => I::Whole(s.range(0, 2)),
        4 => I::Text(s.range(0, 2)),
        5 => match s.draw(3) {
            0 => I::Broken,
            1 => I::Word,
            _ => I::Missing,
        },
        6 => I::N(s.pick(&[std::i64::MAX, std::i64::MIN + 1, 1 << 40, -(1 << 40)])),
        _ => I::Loop,
    }
}

fn any_n(s: &mut Src) -> N {
    match s.weighted(&[6, 4, 4, 1, 1, 1]) {
        0 => N::F(exact(s)),
        1 => N::Count,
        2 => N::Var(s.usize(0, 1)),
        3 => N::Text(s.range(0, 9)),
        4 => N::Nil,
        _ => N::Missing,
    }
}

/// `log`: what the function is mostly called with
fn body(s: &mut Src, log: Option<bool>, depth: u32, loops: bool) -> Vec<S> {
    let n = if depth == 0 { s.usize(0, 6) } else { s.usize(0, 3) };
    let mut out = vec![];
    for _ in 0..n {
        // rarely something of the other kind, which does not exist there
        let lg = match log {
            Some(l) => l != s.chance(1, 30),
            None => s.chance(1, 2),
        };
        out.push(match s.weighted(&[8, 8, 4, 4, 1, 1, 2, 1, 2, 2, 2, 2, 2]) {
            0 => {
                let g = if lg {
                    s.pick(&[Get::LogValue, Get::LogPath, Get::LogTag, Get::LogField])
                } else {
                    s.pick(&[Get::MetricName, Get::MetricTag])
                };
                S::Get(g, s.usize(0, 2), any_i(s, loops), any_e(s))
            }
            1 => {
                let p = if lg {
                    s.pick(&[Put::LogTag, Put::LogField, Put::DropLogTag, Put::LogValue])
                } else {
                    s.pick(&[Put::MetricTag, Put::DropMetricTag, Put::Name])
                };
                let v = if p != Put::Name && s.chance(1, 2) { Some(s.usize(0, 2)) } else { None };
                let mut k = any_e(s);
                let x = any_e(s);
                if p == Put::Name {
                    // a name must be a string or a number
                    if let E::Bool(_) = k {
                        k = E::Nil
                    }
                }
                S::Put(p, v, any_i(s, loops), k, x)
            }
            2 => S::PushLog(any_e(s)),
            3 => S::PushMetric(any_e(s), any_n(s)),
            4 => S::ClearLogs,
            5 => S::ClearMetrics,
            6 => {
                let q = match s.weighted(&[8, 1]) {
                    0 => s.pick(&[0.5, 0.0, 0.25, 0.75, 0.99, 1.0]),
                    _ => s.pick(&[-1.0, 2.0, 1e300, std::f64::INFINITY, std::f64::NAN]),
                };
                S::Query(s.usize(0, 1), any_i(s, loops), q)
            }
            7 => {
                if s.chance(1, 2) {
                    S::BadPayload(s.usize(0, 17), s.usize(0, 3))
                } else {
                    S::Error(s.usize(0, 3))
                }
            }
            8 => S::Inc,
            9 if depth < 2 => S::IfVar(s.usize(0, 2), body(s, log, depth + 1, loops), body(s, log, depth + 1, loops)),
            10 if depth < 2 => {
                let m = s.range(2, 4);
                S::IfCount(m, s.range(0, m - 1), body(s, log, depth + 1, loops))
            }
            11 if depth < 2 => S::For(s.usize(1, 3), body(s, log, depth + 1, true)),
            12 if depth < 2 => S::Pcall(body(s, log, depth + 1, loops)),
            _ => S::Inc,
        });
    }
    out
}

#[derive(Clone, Debug)]
enum Func {
    Is(Vec<S>),
    Absent,
    NoFn,
}

fn func(s: &mut Src, log: Option<bool>) -> Func {
    match s.weighted(&[10, 1, 1]) {
        0 => {
            let mut b = vec![];
            // there is something to work on behind these
            for _ in 0..s.usize(0, 2) {
                b.push(S::PushLog(E::Lit(tag_val(s).into_bytes())));
            }
            for _ in 0..s.usize(0, 2) {
                b.push(S::PushMetric(E::Lit(name(s).into_bytes()), any_n(s)));
            }
            b.extend(body(s, log, 0, false));
            Func::Is(b)
        }
        1 => Func::Absent,
        _ => Func::NoFn,
    }
}

fn script(fs: &[(&str, &Func)]) -> String {
    let mut o = String::from("count = 0\n");
    for &(name, f) in fs {
        match *f {
            Func::Is(ref b) => {
                o.push_str(&format!("function {}(pyld)\n  local s0, s1, s2, n0, n1\n", name));
                show(b, 1, &mut o);
                o.push_str("end\n");
            }
            Func::Absent => {}
            Func::NoFn => o.push_str(&format!("{} = 12\n", name)),
        }
    }
    o
}

// ------------------------------------------------------------------- model

fn rest(t: &Telemetry) -> String {
    format!(
        "{:?} ts={} persist={} sum={:?} set={:?} n={} total={:?} samples={:?}",
        t.kind(), t.timestamp, t.persist, t.sum(), t.set(), t.count(), t.samples_sum(), t.samples()
    )
}

#[derive(Clone)]
struct MM {
    name: String,
    tags: Map,
    t: Telemetry,
}
#[derive(Clone)]
struct ML {
    path: String,
    value: String,
    time: i64,
    tags: Map,
    fields: Map,
}

fn own_tags(t: &Telemetry) -> Map {
    t.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn see(e: &Event) -> String {
    match *e {
        Event::Telemetry(ref t) => format!("metric {:?} {} tags={:?}", t.name, rest(t), own_tags(t)),
        Event::Log(ref l) => {
            let tags: Map = l.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
            let fields: Map = l.fields.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            format!("log {:?} {:?} t={} tags={:?} fields={:?}", l.path, l.value, l.time, tags, fields)
        }
        ref e => evobs(e),
    }
}

fn see_mm(m: &MM) -> String {
    format!("metric {:?} {} tags={:?}", m.name, rest(&m.t), m.tags)
}
fn see_ml(l: &ML) -> String {
    format!("log {:?} {:?} t={} tags={:?} fields={:?}", l.path, l.value, l.time, l.tags, l.fields)
}

struct Model {
    global: Map,
    path: String,
    count: i64,
    last: u64,
    metrics: Vec<MM>,
    logs: Vec<ML>,
    sv: [Option<Vec<u8>>; 3],
    nv: [Option<f64>; 2],
    now: i64,
    calls: u32,
    errors: u32,
    steps: u32,
}

struct Raised;

impl Model {
    fn e(&self, e: &E) -> Option<Vec<u8>> {
        match *e {
            E::Lit(ref b) => Some(b.clone()),
            E::Int(i) => Some(format!("{}", i).into_bytes()),
            E::Bool(b) => Some(format!("{}", b).into_bytes()),
            E::Var(i) => self.sv[i].clone(),
            E::Count => Some(format!("{}", self.count).into_bytes()),
            E::Nil | E::Missing => None,
        }
    }
    /// a text as the API takes it: UTF-8 or nothing
    fn t(&self, e: &E) -> Option<String> {
        self.e(e).and_then(|b| String::from_utf8(b).ok())
    }
    fn i(&self, i: &I, lp: i64, len: usize) -> Result<usize, Raised> {
        let n = match *i {
            I::N(n) | I::Whole(n) | I::Text(n) => n,
            I::Loop => lp,
            I::Broken | I::Word | I::Missing => 0,
        };
        let p = if n > 0 { n as i128 - 1 } else if n < 0 { len as i128 + n as i128 } else { -1 };
        if p < 0 || p >= len as i128 {
            Err(Raised)
        } else {
            Ok(p as usize)
        }
    }
    fn lookup(&self, own: &Map, k: &str) -> Option<Vec<u8>> {
        own.get(k).or_else(|| self.global.get(k)).map(|v| v.clone().into_bytes())
    }
    fn run(&mut self, b: &[S], lp: i64) -> Result<(), Raised> {
        for st in b {
            self.steps += 1;
            match *st {
                S::Get(g, v, ref i, ref k) => {
                    self.calls += 1;
                    let r = match g {
                        Get::MetricName => Some(self.metrics[self.i(i, lp, self.metrics.len())?].name.clone().into_bytes()),
                        Get::LogValue => Some(self.logs[self.i(i, lp, self.logs.len())?].value.clone().into_bytes()),
                        Get::LogPath => Some(self.logs[self.i(i, lp, self.logs.len())?].path.clone().into_bytes()),
                        Get::MetricTag => {
                            let m = &self.metrics[self.i(i, lp, self.metrics.len())?];
                            let miss = if let I::Missing = *i { true } else { false };
                            if miss { None } else { self.t(k).and_then(|k| self.lookup(&m.tags, &k)) }
                        }
                        Get::LogTag => {
                            let l = &self.logs[self.i(i, lp, self.logs.len())?];
                            self.t(k).and_then(|k| self.lookup(&l.tags, &k))
                        }
                        Get::LogField => {
                            let l = &self.logs[self.i(i, lp, self.logs.len())?];
                            self.t(k).and_then(|k| l.fields.get(&k).map(|v| v.clone().into_bytes()))
                        }
                    };
                    self.sv[v] = r;
                }
                S::Query(v, ref i, q) => {
                    self.calls += 1;
                    let j = self.i(i, lp, self.metrics.len())?;
                    self.nv[v] = self.metrics[j].t.query(q);
                }
                S::Put(p, v, ref i, ref k, ref x) => {
                    self.calls += 1;
                    let r = match p {
                        Put::MetricTag | Put::DropMetricTag | Put::Name => {
                            let j = self.i(i, lp, self.metrics.len())?;
                            match p {
                                Put::MetricTag => match (self.t(k), self.t(x)) {
                                    // nothing behind a missing argument
                                    (Some(k), Some(x)) => self.metrics[j].tags.insert(k, x),
                                    _ => None,
                                },
                                Put::DropMetricTag => {
                                    let k = self.t(k);
                                    k.and_then(|k| self.metrics[j].tags.remove(&k))
                                }
                                _ => {
                                    match self.t(k) {
                                        Some(n) => self.metrics[j].name = n,
                                        None => return Err(Raised),
                                    }
                                    None
                                }
                            }
                        }
                        _ => {
                            let j = self.i(i, lp, self.logs.len())?;
                            match p {
                                Put::LogTag => match (self.t(k), self.t(x)) {
                                    (Some(k), Some(x)) => self.logs[j].tags.insert(k, x),
                                    _ => None,
                                },
                                Put::LogField => match (self.t(k), self.t(x)) {
                                    (Some(k), Some(x)) => self.logs[j].fields.insert(k, x),
                                    _ => None,
                                },
                                Put::DropLogTag => {
                                    let k = self.t(k);
                                    k.and_then(|k| self.logs[j].tags.remove(&k))
                                }
                                _ => {
                                    if let Some(t) = self.t(k) {
                                        self.logs[j].value = t;
                                    }
                                    None
                                }
                            }
                        }
                    };
                    if let Some(v) = v {
                        self.sv[v] = r.map(|r| r.into_bytes());
                    }
                }
                S::PushLog(ref e) => {
                    self.calls += 1;
                    if let Some(t) = self.t(e) {
                        let l = ML {
                            path: self.path.clone(),
                            value: t,
                            time: self.now,
                            tags: self.global.clone(),
                            fields: Map::new(),
                        };
                        self.logs.push(l);
                    }
                }
                S::PushMetric(ref e, ref n) => {
                    self.calls += 1;
                    let v = match *n {
                        N::F(f) => f,
                        N::Count => self.count as f64,
                        N::Var(i) => self.nv[i].unwrap_or(0.0),
                        N::Text(i) => i as f64,
                        N::Nil | N::Missing => 0.0,
                    };
                    if let Some(name) = self.t(e) {
                        let t = Telemetry::new().name(name.clone()).value(v).timestamp(self.now).harden().unwrap();
                        let m = MM { name, tags: self.global.clone(), t };
                        self.metrics.push(m);
                    }
                }
                S::ClearLogs => self.logs.clear(),
                S::ClearMetrics => self.metrics.clear(),
                S::BadPayload(_, _) | S::Error(_) => return Err(Raised),
                S::Inc => self.count += 1,
                S::IfVar(v, ref a, ref b) => {
                    if self.sv[v].is_some() {
                        self.run(a, lp)?
                    } else {
                        self.run(b, lp)?
                    }
                }
                S::IfCount(m, r, ref a) => {
                    if self.count % m == r {
                        self.run(a, lp)?
                    }
                }
                S::For(n, ref a) => {
                    for i in 0..n {
                        self.run(a, i as i64 + 1)?
                    }
                }
                S::Pcall(ref a) => {
                    // an error ends the inner function only
                    let _ = self.run(a, lp);
                }
            }
        }
        Ok(())
    }
    /// the events that come out, or none if the script failed
    fn call(&mut self, f: &Func) -> Option<Vec<String>> {
        self.sv = [None, None, None];
        self.nv = [None, None];
        let r = match *f {
            Func::Is(ref b) => self.run(b, 0).ok(),
            _ => None,
        };
        let logs = std::mem::replace(&mut self.logs, vec![]);
        let ms = std::mem::replace(&mut self.metrics, vec![]);
        if r.is_none() {
            self.errors += 1;
        }
        r.map(|_| logs.iter().map(see_ml).chain(ms.iter().map(see_mm)).collect())
    }
    fn failure(&self, f: &str) -> String {
        let t = Telemetry::new()
            .name("x")
            .value(1.0)
            .kind(AggregationMethod::Sum)
            .timestamp(self.now)
            .harden()
            .unwrap();
        see_mm(&MM { name: format!("cernan.filter.{}.{}.failure", self.path, f), tags: Map::new(), t })
    }
    /// (what is to come out, what is to be reported as failure)
    fn event(&mut self, ev: &Event, fs: &Fs) -> (Vec<String>, Option<String>) {
        match *ev {
            Event::Telemetry(ref t) => {
                self.metrics.push(MM { name: t.name.clone(), tags: own_tags(t), t: t.clone() });
                match self.call(&fs.metric) {
                    Some(o) => (o, None),
                    None => (vec![], Some(self.failure("process_metric"))),
                }
            }
            Event::Log(ref l) => {
                self.logs.push(ML {
                    path: l.path.clone(),
                    value: l.value.clone(),
                    time: l.time,
                    tags: l.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect(),
                    fields: l.fields.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
                });
                match self.call(&fs.log) {
                    Some(o) => (o, None),
                    None => (vec![], Some(self.failure("process_log"))),
                }
            }
            Event::TimerFlush(i) if i <= self.last => (vec![], None),
            Event::TimerFlush(i) => match self.call(&fs.tick) {
                Some(mut o) => {
                    self.last = i;
                    o.push(evobs(ev));
                    (o, None)
                }
                None => (vec![evobs(ev)], Some(self.failure("tick"))),
            },
            _ => (vec![evobs(ev)], None),
        }
    }
}

struct Fs {
    metric: Func,
    log: Func,
    tick: Func,
}

fn set_up(s: &mut Src) -> (Fs, Model, String, ProgrammableFilterConfig, tempdir::TempDir) {
    let fs_ = Fs { metric: func(s, Some(false)), log: func(s, Some(true)), tick: func(s, None) };
    let text = script(&[("process_metric", &fs_.metric), ("process_log", &fs_.log), ("tick", &fs_.tick)]);
    let dir = tempdir::TempDir::new("lua").unwrap();
    let file = dir.path().join("s.lua");
    fs::write(&file, &text).unwrap();
    let global = tags(s, 2);
    let conf = ProgrammableFilterConfig {
        scripts_directory: Some(dir.path().to_path_buf()),
        script: Some(file),
        forwards: vec![],
        config_path: Some("filters.lua".to_string()),
        tags: tagmap(&global),
    };
    let m = Model {
        global: global.clone(),
        path: "filters.lua".to_string(),
        count: 0,
        last: 0,
        metrics: vec![],
        logs: vec![],
        sv: [None, None, None],
        nv: [None, None],
        now: cernan::time::now(),
        calls: 0,
        errors: 0,
        steps: 0,
    };
    (fs_, m, text, conf, dir)
}

fn events(s: &mut Src) -> Vec<Event> {
    let n = match s.weighted(&[10, 1]) {
        0 => s.usize(1, 10),
        _ => s.usize(50, 160),
    };
    let mut pulse = 0;
    let mut out = vec![];
    for _ in 0..n {
        let ts = s.range(-3, 2_000_000_000);
        out.push(match s.weighted(&[5, 5, 3, 1]) {
            0 => Event::Telemetry(telem(s, ts)),
            1 => {
                let mut l: LogLine = logline(s, ts);
                for _ in 0..s.usize(0, 2) {
                    l = l.insert_field(tag_key(s), tag_val(s));
                }
                Event::Log(l)
            }
            2 => {
                if pulse == 0 || !s.chance(1, 4) {
                    pulse += s.range(1, 2) as u64;
                } else if s.chance(1, 3) {
                    pulse -= 1;
                }
                Event::TimerFlush(pulse)
            }
            _ => raw(s),
        });
    }
    out
}

fn lua(s: &mut Src, c: &mut Ctx) -> Res {
    let (fs_, mut m, text, conf, _dir) = set_up(s);
    let evs = events(s);
    let mut f = ProgrammableFilter::new(conf);
    let mut out_n = 0;
    for (k, ev) in evs.iter().enumerate() {
        let (want, fail_want) = m.event(ev, &fs_);
        let mut got = vec![];
        let r = guard(|| f.process(ev.clone(), &mut got));
        let r = match r {
            Ok(r) => r,
            Err(p) => return fail("lua-panic", format!("the filter panics: {}\nevent {}\n{}", p, see(ev), text)),
        };
        let got: Vec<String> = got.iter().map(see).collect();
        let failed = match r {
            Ok(()) => None,
            Err(FilterError::NoSuchFunction(_, e)) | Err(FilterError::LuaError(_, e)) => Some(see(&e)),
        };
        out_n += got.len();
        ensure!(
            got == want,
            "lua-output",
            "event {}: {}\ncomes out as {:#?}\ninstead of {:#?}\nof the script\n{}",
            k, see(ev), got, want, text
        );
        ensure!(
            failed == fail_want,
            "lua-failure",
            "event {}: {}\nreports {:?} instead of {:?} of the script\n{}",
            k, see(ev), failed, fail_want, text
        );
    }
    c.nontrivial = m.calls >= 2 && out_n > 0;
    c.label_if(m.errors > 0, "script-errors");
    c.label_if(evs.len() >= 50, "many-events");
    c.label_if(m.steps > 200, "many-steps");
    c.sample(|| format!("{} events, {} out, {} API calls, {} script errors:\n{}", evs.len(), out_n, m.calls, m.errors, text));
    Ok(())
}

/// the same through the filter's main loop
fn lua_run(s: &mut Src, c: &mut Ctx) -> Res {
    let (fs_, mut m, text, conf, dir) = set_up(s);
    let evs = events(s);
    let (mut tx, rx, _q) = big_queue();
    let tap = Tap::new();
    let chans = tap.chans();
    let th = thread::spawn(move || {
        let _dir = dir;
        let mut f = ProgrammableFilter::new(conf);
        f.run(rx, vec!["up".to_string()], chans);
    });
    let mut want = vec![];
    for ev in &evs {
        let (w, f) = m.event(ev, &fs_);
        // the failure is told first
        want.extend(f);
        want.extend(w);
        tx.send(ev.clone()).ok();
    }
    want.push("shutdown".to_string());
    tx.send(Event::Shutdown).ok();
    let done = join_within(Duration::from_secs(20), move || th.join().is_ok());
    ensure!(done == Some(Ok(true)), "lua-run-ends", "the filter does not end after its upstream: {:?}\n{}", take_panics(), text);
    let out: Vec<String> = tap.drain().iter().map(see).collect();
    ensure!(out == want, "lua-run", "out comes {:#?}\ninstead of {:#?}\nof the script\n{}", out, want, text);
    c.nontrivial = m.calls >= 2 && out.len() > 1;
    c.label_if(m.errors > 0, "script-errors");
    c.sample(|| format!("{} events, {} out, {} API calls, {} script errors", evs.len(), out.len(), m.calls, m.errors));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        level: "exploration",
        rule: "random scripts over the whole payload API (conditions, loops, protected calls, errors, indices in and out of range, missing, nil, numeric, boolean and non-UTF-8 arguments) run over random event lists, compared event by event with an interpreter of the same program; non-trivial = at least two API calls and one event out",
        assumptions: &["a script does not keep the payload beyond its call", "the clock does not move within a case"],
        subs: vec![
            Sub { name: "process", quick: 60_000, thorough: 1_000_000, workers: 0, confirm: 0, f: lua },
            Sub { name: "run", quick: 4_000, thorough: 60_000, workers: 0, confirm: 2, f: lua_run },
        ],
        known: vec![],
    }]
}
