//! C26: no event that a source accepts ends a filter or a sink.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::mock::{Ans, Mock};
use crate::p_console::Capture;
use crate::p_http::{bulk_answer, ids_of};
use crate::p_kafka::{broker, Shared};
use crate::p_prom::{http_get, stop};
use crate::p_e2e::Sinkhole;
use cernan::filter::{
    DelayFilter, DelayFilterConfig, Filter, FlushBoundaryFilter, FlushBoundaryFilterConfig, JSONEncodeFilter, JSONEncodeFilterConfig,
    ProgrammableFilter, ProgrammableFilterConfig,
};
use cernan::metric::{AggregationMethod as K, Encoding, Event, LogLine, Metadata, Telemetry};
use cernan::protocols::graphite::parse_graphite;
use cernan::protocols::statsd::parse_statsd;
use cernan::sink::{
    Console, ConsoleConfig, Elasticsearch, ElasticsearchConfig, InfluxDB, InfluxDBConfig, Kafka, KafkaConfig, Native, NativeConfig, Null,
    NullConfig, Prometheus, PrometheusConfig, Sink, Wavefront, WavefrontConfig,
};
use cernan::source::StatsdParseConfig;
use regex::Regex;
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::net::TcpListener;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

const SCRIPT: &str = r#"
function process_metric(p)
  local n = payload.metric_name(p, 1)
  payload.set_metric_name(p, 1, n)
  local q = payload.metric_query(p, 1, 0.5)
  local v = payload.metric_tag_value(p, 1, "k")
  if v then payload.metric_set_tag(p, 1, "k2", v) end
  payload.push_metric(p, n .. "_q", q or 1)
  payload.metric_remove_tag(p, 2, "k2")
end
function process_log(p)
  local v = payload.log_value(p, 1)
  local w = payload.log_path(p, 1)
  payload.log_set_field(p, 1, w, v)
  payload.log_set_tag(p, 1, w, v)
  payload.push_log(p, v .. w)
  payload.log_set_value(p, 1, payload.log_field_value(p, 1, w))
end
function tick(p)
  payload.push_metric(p, "tick", 0 / 0)
  payload.push_log(p, "")
end
"#;

// ------------------------------------------------------------------- events

fn word(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 3, 1]) {
        0 => s.pick(&["a", "b", "a.b", "k", "path", "uuid"]).to_string(),
        1 => s.pick(&["", " ", "\u{0}", "\n", "\"", "\\", "=", ",", "#", "é", "\u{202e}", "\u{feff}", "%", "{}", "_"]).to_string(),
        2 => s.string(&chars("ab ,=\"\\\n\t\r\u{0}\u{7f}\u{80}é\u{10ffff}{}[]%#:|@/.-_0"), 0, 8),
        _ => {
            let n = s.pick(&[255usize, 256, 5_000, 40_000]);
            "x".chars().cycle().take(n).collect()
        }
    }
}

fn number(s: &mut Src) -> f64 {
    match s.weighted(&[3, 3, 1]) {
        0 => exact(s),
        1 => s.pick(&[
            std::f64::NAN,
            std::f64::INFINITY,
            std::f64::NEG_INFINITY,
            std::f64::MAX,
            std::f64::MIN,
            std::f64::MIN_POSITIVE,
            5e-324,
            -0.0,
            9_007_199_254_740_993.0,
            -std::f64::NAN,
        ]),
        _ => f64::from_bits(s.u64()),
    }
}

fn stamp(s: &mut Src, now: i64) -> i64 {
    match s.weighted(&[5, 3, 1]) {
        0 => now + s.range(-3, 3),
        1 => s.pick(&[
            0,
            -1,
            std::i64::MAX,
            std::i64::MIN,
            std::i64::MAX - 1,
            std::i64::MIN + 1,
            1 << 62,
            -(1 << 62),
            std::i64::MAX / 1000,
            std::i64::MIN / 1000,
            std::i64::MAX / 1_000_000_000 + 1,
            8_210_298_412_800,
            8_210_298_412_799,
            -8_334_632_851_200,
            -8_334_632_851_201,
            253_402_300_800,
        ]),
        _ => s.u64() as i64,
    }
}

fn metadata(s: &mut Src) -> Metadata {
    let mut m = Metadata::default();
    for _ in 0..s.usize(0, 3) {
        let k: Vec<u8> = s.vec(0, 4, |s| s.pick(&[b'a', 0, 0xff, b'\n', 0xc3]));
        let v: Vec<u8> = s.vec(0, 4, |s| s.draw(256) as u8);
        m.insert(k, v);
    }
    m
}

fn odd_tags(s: &mut Src) -> Vec<(String, String)> {
    s.vec(0, 3, |s| (word(s), word(s)))
}

/// the masks of two statsd sources
fn statsd(which: usize) -> Arc<StatsdParseConfig> {
    let re = |x: &str| Regex::new(x).unwrap();
    Arc::new(if which == 0 {
        StatsdParseConfig { histogram_masks: vec![(re("^a"), vec![1.0, 10.0])], summarize_error_bound: 0.01 }
    } else {
        StatsdParseConfig { histogram_masks: vec![(re("^a"), vec![-5.0, 1.0, 2.0, 1e300])], summarize_error_bound: 0.2 }
    })
}

fn arrive(s: &mut Src, now: i64, out: &mut Vec<Event>) -> String {
    match s.weighted(&[3, 2, 5, 4, 2]) {
        0 => {
            let which = s.usize(0, 1);
            let num = match s.weighted(&[3, 2]) {
                0 => format!("{}", number(s)),
                _ => s.pick(&["nan", "inf", "-inf", "NaN", "infinity", "1e999", "-1e999", "+1", "-1", "+nan", "-0"]).to_string(),
            };
            let rate = s.pick(&["", "|@0.1", "|@0", "|@nan", "|@-1", "|@inf", "|@5e-324"]);
            let text = format!("{}:{}|{}{}", s.pick(&["a", "b", "é", "a b", "\u{0}", "a,b=c"]), num, s.pick(&["c", "g", "ms", "h"]), rate);
            let mut res = vec![];
            if parse_statsd(&text, &mut res, &Arc::new(Some(Telemetry::default())), &statsd(which)) {
                out.extend(res.into_iter().map(Event::new_telemetry));
            }
            format!("statsd {} {:?}", which, text)
        }
        1 => {
            let num = match s.weighted(&[3, 2]) {
                0 => format!("{}", number(s)),
                _ => s.pick(&["nan", "inf", "-inf", "1e999"]).to_string(),
            };
            let text = format!("{} {} {}", s.pick(&["a", "b", "é", "\u{0}", "a;k=v"]), num, stamp(s, now));
            let mut res = vec![];
            if parse_graphite(&text, &mut res, &Arc::new(Some(Telemetry::default()))) {
                out.extend(res.into_iter().map(Event::new_telemetry));
            }
            format!("graphite {:?}", text)
        }
        2 => {
            // what the native source makes of a point
            let nm = if s.chance(1, 2) { s.pick(&["a", "b"]).to_string() } else { word(s) };
            let ts = (stamp(s, now).saturating_mul(s.pick(&[1000, 1])) as f64 * 0.001) as i64;
            let k = kind(s);
            let persist = s.chance(1, 3);
            let n = many(s, 4).max(1);
            let mut t = Telemetry::new().name(nm.as_str()).value(number(s)).kind(k).persist(persist).timestamp(ts).harden().unwrap();
            let tg = odd_tags(s);
            for (key, val) in &tg {
                t = t.overlay_tag(key.clone(), val.clone());
            }
            for _ in 1..n {
                t = t.insert(number(s));
            }
            let r = format!("point {:?} {:?} ts {} persist {} {} samples {:?} tags {:?}", short(&nm), k, ts, persist, n, obs_of(&t), short_tags(&tg));
            out.push(Event::new_telemetry(t));
            r
        }
        3 => {
            let text = match s.weighted(&[3, 2]) {
                0 => word(s),
                _ => s
                    .pick(&["{}", "{\"a\":1e999}", "{\"a\":{\"a\":[1]}}", "[", "{\"path\":1}", "null", "{\"a\":\"\\ud800\"}", "{\"\":\"\"}"])
                    .to_string(),
            };
            let path = word(s);
            let ts = stamp(s, now);
            let mut l = LogLine::new(path.as_str(), text.as_str()).time(ts);
            let tg = odd_tags(s);
            for (key, val) in &tg {
                l = l.overlay_tag(key.clone(), val.clone());
            }
            out.push(Event::new_log(l));
            format!("line {:?} of {:?} ts {} tags {:?}", short(&text), short(&path), ts, short_tags(&tg))
        }
        _ => {
            let m = if s.chance(1, 2) { Some(metadata(s)) } else { None };
            let n = s.pick(&[0usize, 1, 7, 300, 70_000]);
            let order_by = s.u64();
            let r = format!("raw {} bytes, order {}, metadata {:?}", n, order_by, m);
            out.push(Event::Raw {
                order_by,
                encoding: s.pick(&[Encoding::Avro, Encoding::Raw, Encoding::JSON]),
                bytes: vec![s.draw(256) as u8; n],
                metadata: m,
                connection_id: None,
            });
            r
        }
    }
}

fn short(x: &str) -> String {
    if x.chars().count() > 30 {
        format!("{}... ({} bytes)", x.chars().take(10).collect::<String>(), x.len())
    } else {
        x.to_string()
    }
}
fn short_tags(t: &[(String, String)]) -> Vec<(String, String)> {
    t.iter().map(|x| (short(&x.0), short(&x.1))).collect()
}
fn obs_of(t: &Telemetry) -> String {
    format!("{:?}/{:?}/{:?}", t.set(), t.sum(), t.samples_sum())
}

// -------------------------------------------------------------------- sinks

enum S {
    Console(Console, Capture, Vec<u8>),
    Null(Null),
    Wave(Wavefront, Sinkhole),
    Native(Native, Sinkhole),
    Influx(InfluxDB, Mock, Vec<u8>),
    Elastic(Elasticsearch, Mock, Vec<u8>),
    Prom(Prometheus, u16),
    Kafka(Kafka, Arc<Mutex<Shared>>, Arc<AtomicBool>, Option<thread::JoinHandle<()>>),
}

macro_rules! each {
    ($s:expr, $k:ident => $e:expr) => {
        match *$s {
            S::Console(ref mut $k, _, _) => $e,
            S::Null(ref mut $k) => $e,
            S::Wave(ref mut $k, _) => $e,
            S::Native(ref mut $k, _) => $e,
            S::Influx(ref mut $k, _, _) => $e,
            S::Elastic(ref mut $k, _, _) => $e,
            S::Prom(ref mut $k, _) => $e,
            S::Kafka(ref mut $k, _, _, _) => $e,
        }
    };
}

fn holds(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

impl S {
    fn new(s: &mut Src, worker: usize, log: &mut Vec<String>) -> S {
        let mut st = cernan::metric::TagMap::default();
        for (k, v) in s.vec(0, 2, |s| (word(s), word(s))) {
            st.insert(k, v);
        }
        let w = s.pick(&[1i64, 1, 2, 60, std::i64::MAX]);
        let age = s.pick(&[None, None, Some(0u64), Some(std::i64::MAX as u64), Some(1 << 62)]);
        let p = port(worker);
        let which = s.weighted(&[6, 1, 6, 5, 4, 4, 5, 1]);
        log.push(format!("tags {:?} width {} age {:?}", st, w, age));
        match which {
            0 => {
                let mut c = ConsoleConfig::default();
                c.bin_width = w;
                c.tags = st;
                S::Console(Console::init(c), Capture::new(), vec![])
            }
            1 => S::Null(Null::init(NullConfig::new("null".into()))),
            2 => {
                let ep = Sinkhole::new(p);
                let mut pad_control = WavefrontConfig::default().pad_control;
                if s.chance(1, 2) {
                    pad_control.set = true;
                    pad_control.sum = true;
                    pad_control.histogram = true;
                    pad_control.summarize = true;
                }
                let k = Wavefront::init(WavefrontConfig {
                    bin_width: w,
                    host: "127.0.0.1".into(),
                    port: p,
                    tags: st,
                    age_threshold: age,
                    pad_control,
                    ..WavefrontConfig::default()
                });
                S::Wave(k, ep)
            }
            3 => {
                let ep = Sinkhole::new(p);
                S::Native(<Native as Sink<NativeConfig>>::init(NativeConfig { port: p, host: "127.0.0.1".into(), tags: st, ..NativeConfig::default() }), ep)
            }
            4 => {
                let m = Mock::new(p, Box::new(|_| Ans::Reply(204, String::new())));
                let k = InfluxDB::init(InfluxDBConfig { secure: false, host: "127.0.0.1".into(), port: p, tags: st, ..InfluxDBConfig::default() });
                S::Influx(k, m, vec![])
            }
            5 => {
                let m = Mock::new(
                    p,
                    Box::new(|b| Ans::Reply(200, bulk_answer(&ids_of(b), &BTreeMap::new(), 0))),
                );
                let k = Elasticsearch::init(ElasticsearchConfig { port: p as usize, host: "127.0.0.1".into(), tags: st, ..ElasticsearchConfig::default() });
                S::Elastic(k, m, vec![])
            }
            6 => {
                let k = Prometheus::init(PrometheusConfig {
                    host: "127.0.0.1".into(),
                    port: p,
                    tags: st,
                    age_threshold: age,
                    capacity_in_seconds: s.pick(&[1usize, 600, 1 << 40]),
                    gzip: false,
                    ..PrometheusConfig::default()
                });
                S::Prom(k, p)
            }
            _ => {
                let l = TcpListener::bind(("127.0.0.1", p)).expect("broker port");
                let sh = Arc::new(Mutex::new(Shared { script: HashMap::new(), seen: vec![], conns: vec![], bad: vec![] }));
                let end = Arc::new(AtomicBool::new(false));
                let (sh2, st2) = (Arc::clone(&sh), Arc::clone(&end));
                let th = thread::spawn(move || broker(l, p, sh2, st2));
                let mut rd = HashMap::new();
                for (k, v) in &[("queue.buffering.max.ms", "0"), ("batch.num.messages", "1"), ("socket.blocking.max.ms", "1")] {
                    rd.insert(k.to_string(), v.to_string());
                }
                let k = Kafka::init(KafkaConfig {
                    topic_name: Some("t".into()),
                    brokers: Some(format!("127.0.0.1:{}", p)),
                    rdkafka_config: Some(rd),
                    ..KafkaConfig::default()
                });
                S::Kafka(k, sh, end, Some(th))
            }
        }
    }
    fn name(&self) -> &'static str {
        match *self {
            S::Console(..) => "console",
            S::Null(..) => "null",
            S::Wave(..) => "wavefront",
            S::Native(..) => "native",
            S::Influx(..) => "influxdb",
            S::Elastic(..) => "elasticsearch",
            S::Prom(..) => "prometheus",
            S::Kafka(..) => "kafka",
        }
    }
    fn take(&mut self, e: Event) {
        match e {
            Event::Telemetry(t) => each!(self, k => k.deliver(t)),
            Event::Log(l) => each!(self, k => k.deliver_line(l)),
            Event::Raw { order_by, encoding, bytes, metadata, connection_id } => {
                each!(self, k => k.deliver_raw(order_by, encoding, bytes, metadata, connection_id))
            }
            Event::TimerFlush(_) => {
                each!(self, k => k.flush());
            }
            Event::Shutdown => {}
        }
    }
    /// has the output with the healthy point, line or bytes in it come out?
    fn healthy(&mut self, json: bool) -> bool {
        match *self {
            S::Console(_, ref mut cap, ref mut b) => {
                b.extend(cap.take());
                holds(b, b"healthy.point") && (json || holds(b, b"healthy line"))
            }
            S::Null(_) => true,
            S::Wave(_, ref mut ep) => {
                holds(&ep.buf.lock().unwrap(), b"healthy.point")
            }
            S::Native(_, ref mut ep) => {
                let b = ep.buf.lock().unwrap();
                holds(&b, b"healthy.point") && (json || holds(&b, b"healthy line"))
            }
            S::Influx(_, ref m, ref mut b) => {
                b.extend(m.seen().into_iter().flat_map(|x| x.body));
                holds(b, b"healthy.point")
            }
            S::Elastic(_, ref m, ref mut b) => {
                b.extend(m.seen().into_iter().flat_map(|x| x.body));
                json || holds(b, b"healthy line")
            }
            S::Prom(_, port) => match http_get(port, "/metrics", Duration::from_secs(5)) {
                Ok(r) => holds(&r.body, b"healthy_point"),
                Err(_) => false,
            },
            S::Kafka(_, ref sh, _, _) => {
                sh.lock().unwrap().seen.iter().any(|x| x.value.as_ref().map_or(false, |v| holds(v, b"healthy bytes")))
            }
        }
    }
    fn end(self) {
        match self {
            S::Console(k, cap, _) => {
                k.shutdown();
                drop(cap);
            }
            S::Null(k) => k.shutdown(),
            S::Wave(k, ep) => {
                k.shutdown();
                drop(ep);
            }
            S::Native(k, ep) => {
                <Native as Sink<NativeConfig>>::shutdown(k);
                drop(ep);
            }
            S::Influx(k, m, _) => {
                k.shutdown();
                drop(m);
            }
            S::Elastic(k, m, _) => {
                k.shutdown();
                drop(m);
            }
            S::Prom(k, port) => {
                stop(port, move || k.shutdown());
            }
            S::Kafka(k, _, end, th) => {
                k.shutdown();
                end.store(true, Ordering::SeqCst);
                if let Some(t) = th {
                    let _ = t.join();
                }
            }
        }
    }
}

// ------------------------------------------------------------------ the case

fn through(fs: &mut [Box<dyn Filter>], e: Event) -> Result<Vec<Event>, usize> {
    let mut evs = vec![e];
    let mut errs = 0;
    for f in fs.iter_mut() {
        let mut out = vec![];
        for e in evs {
            if f.process(e, &mut out).is_err() {
                errs += 1;
            }
        }
        evs = out;
    }
    if errs > 0 && evs.is_empty() {
        return Err(errs);
    }
    Ok(evs)
}

fn survive(s: &mut Src, c: &mut Ctx) -> Res {
    let now = cernan::time::now();
    let dir = tempdir::TempDir::new("any").unwrap();
    let mut fs_: Vec<Box<dyn Filter>> = vec![];
    let mut log = vec![];
    let mut json = false;
    let mut hold = 0;
    for _ in 0..s.weighted(&[3, 3, 1]) {
        match s.draw(4) {
            0 => {
                let tolerance = s.pick(&[1, 60, std::i64::MAX]);
                log.push(format!("delay {}", tolerance));
                fs_.push(Box::new(DelayFilter::new(&DelayFilterConfig { config_path: Some("f".into()), forwards: vec![], tolerance })));
            }
            1 => {
                let tolerance = s.usize(0, 3);
                hold += tolerance + 2;
                log.push(format!("flush_boundary {}", tolerance));
                fs_.push(Box::new(FlushBoundaryFilter::new(&FlushBoundaryFilterConfig { config_path: Some("f".into()), forwards: vec![], tolerance })));
            }
            2 => {
                json = true;
                let parse_line = s.chance(2, 3);
                let mut tags = cernan::metric::TagMap::default();
                for (k, v) in odd_tags(s) {
                    tags.insert(k, v);
                }
                log.push(format!("json_encode {} {:?}", parse_line, tags));
                fs_.push(Box::new(JSONEncodeFilter::new(JSONEncodeFilterConfig { config_path: Some("f".into()), forwards: vec![], parse_line, tags })));
            }
            _ => {
                let file = dir.path().join("s.lua");
                fs::write(&file, SCRIPT).unwrap();
                log.push("programmable".to_string());
                fs_.push(Box::new(ProgrammableFilter::new(ProgrammableFilterConfig {
                    scripts_directory: Some(dir.path().to_path_buf()),
                    script: Some(file),
                    forwards: vec![],
                    config_path: Some("filters.lua".to_string()),
                    tags: Default::default(),
                })));
            }
        }
    }
    let mut sink = S::new(s, c.worker, &mut log);
    log.push(format!("sink {}", sink.name()));
    let mut pulse = 0;
    let n = many(s, 8);
    let (mut events, mut flushes) = (0, 0);
    let feed = |fs_: &mut Vec<Box<dyn Filter>>, sink: &mut S, e: Event| match through(fs_, e) {
        Ok(evs) => {
            for e in evs {
                sink.take(e);
            }
            true
        }
        Err(_) => false,
    };
    for _ in 0..n {
        if s.chance(1, 5) {
            pulse += 1;
            flushes += 1;
            log.push("flush".into());
            feed(&mut fs_, &mut sink, Event::TimerFlush(pulse));
        } else {
            let mut evs = vec![];
            log.push(arrive(s, now, &mut evs));
            events += evs.len();
            for e in evs {
                feed(&mut fs_, &mut sink, e);
            }
        }
    }
    // and now something ordinary
    let healthy = vec![
        Event::new_telemetry(Telemetry::new().name("healthy.point").value(1.0).kind(K::Set).timestamp(now).harden().unwrap()),
        Event::new_log(LogLine::new("p", "healthy line").time(now)),
        Event::Raw { order_by: 1, encoding: Encoding::Raw, bytes: b"healthy bytes".to_vec(), metadata: None, connection_id: None },
    ];
    for e in healthy {
        let what = evobs(&e);
        ensure!(feed(&mut fs_, &mut sink, e), "any-refused", "{} is refused after\n{}", what, log.join("\n"));
    }
    for _ in 0..=hold {
        pulse += 1;
        feed(&mut fs_, &mut sink, Event::TimerFlush(pulse));
    }
    let ok = eventually(Duration::from_secs(10), || sink.healthy(json));
    let name = sink.name();
    ensure!(ok, "any-lost", "the healthy event did not come out of {} after\n{}", name, log.join("\n"));
    c.label(name);
    for l in &log {
        for f in &["delay", "flush_boundary", "json_encode", "programmable"] {
            c.label_if(l.starts_with(f), f);
        }
    }
    c.label_if(flushes > 0, "flushed-in-between");
    if events > 1 {
        c.nontrivial = true;
    }
    c.sample(|| log.join("; "));
    sink.end();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        level: "exploration",
        rule: "random lists of events as the sources make them of hostile input (special numbers, extreme times, odd and long texts, differing bounds and error bounds in one series, odd metadata) and flushes through up to two real filters and a real sink to an endpoint of the harness; no panic in any thread, and a healthy point, line and publication must come out afterwards; non-trivial = at least two events",
        assumptions: &["points are made as the native source makes them, statsd and graphite text by the real parsers", "bin widths and bounds as a valid configuration has them"],
        subs: vec![Sub { name: "survive", quick: 12_000, thorough: 120_000, workers: 0, confirm: 1, f: survive }],
        known: vec![],
    }]
}
