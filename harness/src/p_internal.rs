//! C24: what cernan reports about itself.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::mock::*;
use crate::p_filter;
use crate::p_http;
use crate::p_prom;
use crate::p_tcp;
use cernan::filter::{self, DelayFilter, DelayFilterConfig, Filter, JSONEncodeFilter, JSONEncodeFilterConfig};
use cernan::metric::{AggregationMethod as K, Encoding, Event, Telemetry};
use cernan::sink::{self, Elasticsearch, ElasticsearchConfig, InfluxDB, InfluxDBConfig, Prometheus, PrometheusConfig, Sink, Wavefront, WavefrontConfig};
use cernan::source::{self, Avro, Graphite, GraphiteConfig, Internal, InternalConfig, NativeServer, NativeServerConfig, Source, Statsd, StatsdConfig, TCPConfig};
use cernan::thread::Stoppable;
use cernan::util;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

type Sums = BTreeMap<String, u64>;

/// counters anyone may add to
fn sums() -> Vec<(&'static str, &'static AtomicUsize)> {
    use filter::delay_filter as d;
    use filter::json_encode_filter as j;
    use sink::elasticsearch as e;
    use sink::influxdb as i;
    use sink::kafka as k;
    use sink::prometheus as p;
    use sink::wavefront as w;
    vec![
        ("util.hopper.error.full", &util::UTIL_SEND_HOPPER_ERROR_FULL),
        ("sinks.elasticsearch.records.delivery", &e::ELASTIC_RECORDS_DELIVERY),
        ("sinks.elasticsearch.records.total_delivered", &e::ELASTIC_RECORDS_TOTAL_DELIVERED),
        ("sinks.elasticsearch.records.total_failed", &e::ELASTIC_RECORDS_TOTAL_FAILED),
        ("sinks.elasticsearch.error.unknown", &e::ELASTIC_ERROR_UNKNOWN),
        ("sinks.elasticsearch.error.bulk_action.index", &e::ELASTIC_BULK_ACTION_INDEX_ERR),
        ("sinks.elasticsearch.error.bulk_action.create", &e::ELASTIC_BULK_ACTION_CREATE_ERR),
        ("sinks.elasticsearch.error.bulk_action.update", &e::ELASTIC_BULK_ACTION_UPDATE_ERR),
        ("sinks.elasticsearch.error.bulk_action.delete", &e::ELASTIC_BULK_ACTION_DELETE_ERR),
        ("sinks.elasticsearch.error.api.index_not_found", &e::ELASTIC_ERROR_API_INDEX_NOT_FOUND),
        ("sinks.elasticsearch.error.api.parsing", &e::ELASTIC_ERROR_API_PARSING),
        ("sinks.elasticsearch.error.api.mapper_parsing", &e::ELASTIC_ERROR_API_MAPPER_PARSING),
        ("sinks.elasticsearch.error.api.action_request_validation", &e::ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION),
        ("sinks.elasticsearch.error.api.action_document_missing", &e::ELASTIC_ERROR_API_DOCUMENT_MISSING),
        ("sinks.elasticsearch.error.api.index_already_exists", &e::ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS),
        ("sinks.elasticsearch.error.api.unknown", &e::ELASTIC_ERROR_API_UNKNOWN),
        ("sinks.elasticsearch.error.client", &e::ELASTIC_ERROR_CLIENT),
        ("sinks.wavefront.proxy.connection_attempts", &w::WAVEFRONT_CONNECT_ATTEMPTS),
        ("sinks.wavefront.aggregation.histogram", &w::WAVEFRONT_AGGR_HISTO),
        ("sinks.wavefront.aggregation.sum", &w::WAVEFRONT_AGGR_SUM),
        ("sinks.wavefront.aggregation.set", &w::WAVEFRONT_AGGR_SET),
        ("sinks.wavefront.aggregation.summarize", &w::WAVEFRONT_AGGR_SUMMARIZE),
        ("sinks.wavefront.aggregation.summarize.total_percentiles", &w::WAVEFRONT_AGGR_TOT_PERCENT),
        ("sinks.wavefront.delivery.success", &w::WAVEFRONT_DELIVERY_SUCCESS),
        ("sinks.wavefront.delivery.failure", &w::WAVEFRONT_DELIVERY_FAILURE),
        ("sinks.wavefront.valve.closed", &w::WAVEFRONT_VALVE_CLOSED),
        ("sinks.wavefront.valve.open", &w::WAVEFRONT_VALVE_OPEN),
        ("sinks.prometheus.aggregation.inside_baseball.windowed.purged", &p::PROMETHEUS_AGGR_WINDOWED_PURGED),
        ("sinks.prometheus.exposition.inside_baseball.delay.sum", &p::PROMETHEUS_RESPONSE_DELAY_SUM),
        ("sinks.prometheus.report.success", &p::PROMETHEUS_REPORT_SUCCESS),
        ("sinks.prometheus.report.error", &p::PROMETHEUS_REPORT_ERROR),
        ("sinks.influxdb.delivery_attempts", &i::INFLUX_DELIVERY_ATTEMPTS),
        ("sinks.influxdb.success", &i::INFLUX_SUCCESS),
        ("sinks.influxdb.failure.client_error", &i::INFLUX_FAILURE_CLIENT),
        ("sinks.influxdb.failure.server_error", &i::INFLUX_FAILURE_SERVER),
        ("sinks.kafka.publish.success", &k::KAFKA_PUBLISH_SUCCESS_SUM),
        ("sinks.kafka.publish.retry", &k::KAFKA_PUBLISH_RETRY_SUM),
        ("sinks.kafka.publish.failure", &k::KAFKA_PUBLISH_FAILURE_SUM),
        ("sinks.kafka.publish.retry.failure", &k::KAFKA_PUBLISH_RETRY_FAILURE_SUM),
        ("filters.delay.telemetry.accept", &d::DELAY_TELEM_ACCEPT),
        ("filters.delay.telemetry.reject", &d::DELAY_TELEM_REJECT),
        ("filters.delay.log.reject", &d::DELAY_LOG_REJECT),
        ("filters.delay.log.accept", &d::DELAY_LOG_ACCEPT),
        ("filters.json_encode.log.processed", &j::JSON_ENCODE_LOG_PROCESSED),
        ("filters.json_encode.log.parsed", &j::JSON_ENCODE_LOG_PARSED),
    ]
}

/// levels: the last value stored is what counts
fn levels() -> Vec<(&'static str, &'static AtomicUsize)> {
    vec![
        ("sinks.elasticsearch.internal.buffer_len", &sink::elasticsearch::ELASTIC_INTERNAL_BUFFER_LEN),
        ("sinks.wavefront.aggregations.total_stored", &sink::wavefront::WAVEFRONT_AGGR_STORED_VALUES),
        ("sinks.prometheus.aggregation.reportable", &sink::prometheus::PROMETHEUS_AGGR_REPORTABLE),
    ]
}

/// a part of cernan at work, and what it should say about that
type Act = Box<dyn FnOnce() + Send>;
struct Scene {
    what: String,
    act: Act,
    sums: Vec<(&'static str, u64)>,
    /// the value a level ends at
    level: Option<(&'static str, u64)>,
    /// known only when the act is over
    late: Option<(&'static str, Arc<AtomicUsize>)>,
    /// runs after everything is counted
    after: Option<Act>,
}

fn plain(what: String, act: Act, sums: Vec<(&'static str, u64)>) -> Scene {
    Scene { what, act, sums, level: None, late: None, after: None }
}

fn delay(s: &mut Src) -> Scene {
    let tol = s.range(5, 100);
    let now = cernan::time::now();
    let (mut a, mut r, mut la, mut lr) = (0, 0, 0, 0);
    let evs = s.vec(1, 20, |s| {
        let off = if s.chance(1, 2) { s.range(-4, 4) } else { s.range(101, 5000) * if s.chance(1, 2) { -1 } else { 1 } };
        let ok = off.abs() < 5;
        match s.weighted(&[5, 5, 1]) {
            0 => {
                if ok { a += 1 } else { r += 1 }
                Event::Telemetry(telem(s, now + off))
            }
            1 => {
                if ok { la += 1 } else { lr += 1 }
                Event::Log(logline(s, now + off))
            }
            _ => s.pick(&[Event::TimerFlush(4)]),
        }
    });
    let n = evs.len();
    let act = Box::new(move || {
        let mut f = DelayFilter::new(&DelayFilterConfig { config_path: None, forwards: vec![], tolerance: tol });
        let mut out = vec![];
        for e in evs {
            let _ = f.process(e, &mut out);
        }
    });
    plain(
        format!("delay filter, {} events", n),
        act,
        vec![
            ("filters.delay.telemetry.accept", a),
            ("filters.delay.telemetry.reject", r),
            ("filters.delay.log.accept", la),
            ("filters.delay.log.reject", lr),
        ],
    )
}

fn json(s: &mut Src) -> Scene {
    let parse_line = s.chance(3, 4);
    let (mut done, mut parsed) = (0, 0);
    let evs = s.vec(1, 12, |s| {
        if s.chance(1, 5) {
            return Event::Telemetry(telem(s, 7));
        }
        let at = p_filter::log_time(s);
        let mut l = logline(s, at);
        done += 1;
        if s.chance(1, 2) {
            l.value = p_filter::json_object(s, 2);
        } else {
            l.value = s.pick(&["", "x", "[1]", "{", "1", "null", "{\"a\":1"]).to_string();
        }
        if parse_line && serde_json::from_str::<serde_json::Value>(&l.value).ok().map_or(false, |v| v.is_object()) {
            parsed += 1;
        }
        Event::Log(l)
    });
    let n = evs.len();
    let act = Box::new(move || {
        let mut f = JSONEncodeFilter::new(JSONEncodeFilterConfig {
            config_path: None,
            forwards: vec![],
            parse_line,
            tags: Default::default(),
        });
        let mut out = vec![];
        for e in evs {
            let _ = f.process(e, &mut out);
        }
    });
    plain(
        format!("json filter, {} events", n),
        act,
        vec![("filters.json_encode.log.processed", done), ("filters.json_encode.log.parsed", parsed)],
    )
}

fn statsd(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    let (mut good, mut bad) = (0, 0);
    let dgs: Vec<Vec<u8>> = s.vec(1, 10, |s| match s.weighted(&[3, 1, 1]) {
        0 => {
            good += 1;
            s.pick(&[&b"a:1|c"[..], b"a:1|g\nb:2|ms", b"a:1|c|@0.5", b"x.y:-3|h"]).to_vec()
        }
        1 => {
            bad += 1;
            s.pick(&[&b"a:1"[..], b"a:1|c\njunk", b":1|c", b"a:b|c"]).to_vec()
        }
        _ => {
            bad += 1;
            s.pick(&[&b"a:1|c\xff"[..], b"\x80", b"\xc0a:1|c\n"]).to_vec()
        }
    });
    let n = dgs.len();
    let tap = Tap::new();
    let th = Statsd::new(
        tap.chans(),
        StatsdConfig { host: "127.0.0.1".into(), port, forwards: vec![], config_path: Some("s".into()), ..StatsdConfig::default() },
    )
    .run();
    let act = Box::new(move || {
        let c = UdpSocket::bind("127.0.0.1:0").unwrap();
        for d in dgs {
            let _ = c.send_to(&d, ("127.0.0.1", port));
            thread::sleep(Duration::from_millis(2));
        }
    });
    let mut sc = plain(format!("statsd, {} packets", n), act, vec![("statsd.packet", good), ("statsd.bad_packet", bad)]);
    sc.after = Some(Box::new(move || {
        th.shutdown();
        drop(tap);
    }));
    sc
}

/// open a connection, write, wait for the far side to finish with it
fn talk(port: u16, b: &[u8]) {
    let start = Instant::now();
    while start.elapsed() < Duration::from_secs(10) {
        if let Ok(mut t) = TcpStream::connect(("127.0.0.1", port)) {
            let _ = t.set_read_timeout(Some(Duration::from_secs(10)));
            let _ = t.write_all(b);
            let _ = t.shutdown(Shutdown::Write);
            let _ = t.read_to_end(&mut vec![]);
            return;
        }
        thread::sleep(Duration::from_millis(5));
    }
}

fn graphite(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    let (mut good, mut bad) = (0, 0);
    let conns: Vec<Vec<u8>> = s.vec(1, 3, |s| {
        let mut b = vec![];
        let n = s.usize(0, 6);
        for k in 0..n {
            let (l, p) = p_tcp::gline(s, 0);
            // an end of stream ends the last line too, if there is one
            let ended = k + 1 < n || l.is_empty() || s.chance(1, 2);
            if p.is_some() {
                good += 1
            } else {
                bad += 1
            }
            b.extend(l);
            if ended {
                b.push(b'\n');
            }
        }
        b
    });
    let n = conns.len() as u64;
    let tap = Tap::new();
    let th = Graphite::new(
        tap.chans(),
        GraphiteConfig { host: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("g".to_string()) }.into(),
    )
    .run();
    let act = Box::new(move || {
        for b in conns {
            talk(port, &b);
        }
    });
    let mut sc = plain(
        format!("graphite, {} connections", n),
        act,
        vec![
            ("graphite.packet", good),
            ("graphite.telemetry.received", good),
            ("graphite.bad_packet", bad),
            ("graphite.new_peer", n),
        ],
    );
    sc.after = Some(Box::new(move || {
        th.shutdown();
        drop(tap);
    }));
    sc
}

fn native(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    let (mut good, mut bad) = (0, 0);
    let conns: Vec<Vec<u8>> = s.vec(1, 3, |s| {
        let mut b = vec![];
        for k in 0..s.usize(0, 4) {
            // a payload of several messages is one payload
            let mut p = vec![];
            for _ in 0..s.usize(0, 3) {
                p_tcp::bytes_field(2, &p_tcp::npoint(s, 0, k).0, &mut p);
            }
            b.extend(p_tcp::framed(&p));
            good += 1;
        }
        if s.chance(1, 2) {
            b.extend(p_tcp::framed(&s.pick(&[vec![0x0fu8], vec![0x12, 0x7f, 0x00], vec![0x12]])));
            bad += 1;
            if s.chance(1, 2) {
                // nothing counts after that
                let mut p = vec![];
                p_tcp::bytes_field(2, &p_tcp::npoint(s, 0, 0).0, &mut p);
                b.extend(p_tcp::framed(&p));
            }
        }
        b
    });
    let n = conns.len();
    let tap = Tap::new();
    let th = NativeServer::new(
        tap.chans(),
        NativeServerConfig { ip: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("n".to_string()) }.into(),
    )
    .run();
    let act = Box::new(move || {
        for b in conns {
            talk(port, &b);
        }
    });
    let mut sc = plain(
        format!("native, {} connections", n),
        act,
        vec![("native.payload.success", good), ("native.payload.parse.failure", bad)],
    );
    sc.after = Some(Box::new(move || {
        th.shutdown();
        drop(tap);
    }));
    sc
}

fn avro(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    let (mut good, mut bad, mut io) = (0, 0, 0);
    let conns: Vec<Vec<u8>> = s.vec(1, 3, |s| {
        let mut b = vec![];
        for _ in 0..s.usize(0, 3) {
            let mut p = p_tcp::publication(s).0;
            // nobody here acknowledges
            p[7] &= !1;
            b.extend(p_tcp::framed(&p));
            good += 1;
        }
        match s.weighted(&[2, 2, 1]) {
            0 => {}
            1 => {
                let (p, blob) = {
                    let (p, q) = p_tcp::publication(s);
                    let at = p.len() - q.blob.len();
                    (p, at)
                };
                let mut p = p;
                p[blob] = b'X';
                b.extend(p_tcp::framed(&p));
                bad += 1;
            }
            _ => {
                b.extend_from_slice(&0x7fff_ffffu32.to_be_bytes());
                io += 1;
            }
        }
        b
    });
    let n = conns.len();
    let tap = Tap::new();
    let th = Avro::new(
        tap.chans(),
        TCPConfig { host: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("a".to_string()) },
    )
    .run();
    let act = Box::new(move || {
        for b in conns {
            talk(port, &b);
        }
    });
    let mut sc = plain(
        format!("avro, {} connections", n),
        act,
        vec![("avro.payload.success", good), ("avro.payload.parse.failure", bad), ("avro.payload.io.failure", io)],
    );
    sc.after = Some(Box::new(move || {
        th.shutdown();
        drop(tap);
    }));
    sc
}

fn wavefront(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    // a proxy which is there from the start needs no further attempt
    let early = s.chance(1, 2);
    let bind = move || {
        let start = Instant::now();
        loop {
            match TcpListener::bind(("127.0.0.1", port)) {
                Ok(l) => return l,
                Err(e) => assert!(start.elapsed() < Duration::from_secs(5), "{}", e),
            }
        }
    };
    let lis = if early { Some(bind()) } else { None };
    let mut sink = Wavefront::init(WavefrontConfig { host: "127.0.0.1".into(), port, flush_interval: 60, ..WavefrontConfig::default() });
    let nper = WavefrontConfig::default().percentiles.len() as u64;
    let rounds: Vec<Vec<Telemetry>> = s.vec(1, 3, |s| {
        s.vec(0, 8, |s| {
            let k = kind(s);
            let p = Pt { name: String::new(), kind: k, tags: Tags::new(), ts: 100, persist: false, vals: vec![1.0], bounds: None, error: None };
            build(&p)
        })
    });
    let per = |k: K| rounds.iter().flatten().filter(|t| t.kind() == k).count() as u64;
    let nr = rounds.len() as u64;
    // the level is looked at before each flush
    let last = rounds.iter().map(|r| r.len() as u64).last();
    let sums = vec![
        ("sinks.wavefront.aggregation.set", per(K::Set)),
        ("sinks.wavefront.aggregation.sum", per(K::Sum)),
        ("sinks.wavefront.aggregation.histogram", per(K::Histogram)),
        ("sinks.wavefront.aggregation.summarize", per(K::Summarize)),
        ("sinks.wavefront.aggregation.summarize.total_percentiles", per(K::Summarize) * nper),
        ("sinks.wavefront.delivery.success", nr),
        ("sinks.wavefront.proxy.connection_attempts", !early as u64),
        ("sinks.wavefront.valve.open", nr),
    ];
    let act = Box::new(move || {
        let lis = lis.unwrap_or_else(bind);
        let th = thread::spawn(move || {
            if let Ok((mut c, _)) = lis.accept() {
                let _ = c.read_to_end(&mut vec![]);
            }
        });
        let mut no = 0;
        for r in rounds {
            for mut t in r {
                // every point is its own series
                t.name = format!("n{}", no);
                no += 1;
                sink.deliver(t);
            }
            let _ = sink.valve_state();
            sink.flush();
        }
        drop(sink);
        let _ = th.join();
    });
    let mut sc = plain(format!("wavefront, {} flushes", nr), act, sums);
    sc.level = last.filter(|n| *n > 0).map(|n| ("sinks.wavefront.aggregations.total_stored", n));
    sc
}

fn influx(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    let (mut cl, mut sv) = (0, 0);
    let mut script: VecDeque<Ans> = VecDeque::new();
    let flushes = s.usize(1, 3);
    for _ in 0..flushes {
        for _ in 0..s.pick(&[0, 0, 1, 2]) {
            let st = s.pick(&[400u16, 404, 429, 500, 503]);
            if st < 500 {
                cl += 1
            } else {
                sv += 1
            }
            script.push_back(Ans::Reply(st, String::new()));
        }
        script.push_back(Ans::Reply(s.pick(&[204, 200]), String::new()));
    }
    let mock = Mock::new(port, Box::new(move |_| script.pop_front().unwrap_or_else(|| Ans::Reply(204, String::new()))));
    let mut sink = InfluxDB::init(InfluxDBConfig {
        secure: false,
        db: "d".into(),
        host: "127.0.0.1".into(),
        port,
        config_path: None,
        tags: Default::default(),
        flush_interval: 60,
    });
    let t = telem(s, 5);
    let act = Box::new(move || {
        for _ in 0..flushes {
            sink.deliver(t.clone());
            sink.flush();
        }
        drop(mock);
    });
    plain(
        format!("influxdb, {} flushes", flushes),
        act,
        vec![
            ("sinks.influxdb.success", flushes as u64),
            ("sinks.influxdb.failure.client_error", cl),
            ("sinks.influxdb.failure.server_error", sv),
        ],
    )
}

fn elastic(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    let mut sums: BTreeMap<&'static str, u64> = BTreeMap::new();
    // how every flush is answered: item by item, or with an error
    let mut plan: VecDeque<Result<Vec<bool>, (u16, &'static str)>> = VecDeque::new();
    let flushes = s.usize(1, 4);
    // records waiting
    let mut held = 0usize;
    let mut adds = vec![];
    let mut level = None;
    for _ in 0..flushes {
        let n = s.usize(0, 4);
        adds.push(n);
        held += n;
        if held == 0 {
            continue;
        }
        // (the length is noted before the answer is worked through)
        level = Some(held as u64);
        if s.chance(1, 3) {
            let (st, body, name) = s.pick(&[
                (404u16, "{\"error\":{\"type\":\"index_not_found_exception\",\"reason\":\"r\",\"index\":\"i\"},\"status\":404}", "sinks.elasticsearch.error.api.index_not_found"),
                (400, "{\"error\":{\"type\":\"parsing_exception\",\"reason\":\"r\",\"line\":1,\"col\":2},\"status\":400}", "sinks.elasticsearch.error.api.parsing"),
                (400, "{\"error\":{\"type\":\"mapper_parsing_exception\",\"reason\":\"r\"},\"status\":400}", "sinks.elasticsearch.error.api.mapper_parsing"),
                (400, "{\"error\":{\"type\":\"action_request_validation_exception\",\"reason\":\"r\"},\"status\":400}", "sinks.elasticsearch.error.api.action_request_validation"),
                (404, "{\"error\":{\"type\":\"document_missing_exception\",\"reason\":\"r\",\"index\":\"i\"},\"status\":404}", "sinks.elasticsearch.error.api.action_document_missing"),
                (400, "{\"error\":{\"type\":\"index_already_exists_exception\",\"reason\":\"r\",\"index\":\"i\"},\"status\":400}", "sinks.elasticsearch.error.api.index_already_exists"),
                (500, "{\"error\":{\"type\":\"something_else_exception\",\"reason\":\"r\"},\"status\":500}", "sinks.elasticsearch.error.api.unknown"),
                (200, "not json", "sinks.elasticsearch.error.client"),
            ]);
            *sums.entry(name).or_insert(0) += 1;
            plan.push_back(Err((st, body)));
        } else {
            let v: Vec<bool> = (0..held).map(|_| !s.chance(1, 3)).collect();
            let ok = v.iter().filter(|x| **x).count();
            *sums.entry("sinks.elasticsearch.records.delivery").or_insert(0) += 1;
            *sums.entry("sinks.elasticsearch.records.total_delivered").or_insert(0) += ok as u64;
            *sums.entry("sinks.elasticsearch.records.total_failed").or_insert(0) += (held - ok) as u64;
            *sums.entry("sinks.elasticsearch.error.bulk_action.index").or_insert(0) += (held - ok) as u64;
            held -= ok;
            plan.push_back(Ok(v));
        }
    }
    let what = format!("elasticsearch, records {:?}, answers {:?}", adds, plan);
    let mock = Mock::new(
        port,
        Box::new(move |body| match plan.pop_front() {
            None => Ans::Reply(500, "{}".into()),
            Some(Err((st, b))) => Ans::Reply(st, b.to_string()),
            Some(Ok(v)) => {
                let ids = p_http::ids_of(body);
                let verdicts = ids.iter().cloned().zip(v.iter().map(|ok| if *ok { 201 } else { 400 })).collect();
                Ans::Reply(200, p_http::bulk_answer(&ids, &verdicts, 0))
            }
        }),
    );
    let mut sink = Elasticsearch::init(ElasticsearchConfig {
        host: "127.0.0.1".into(),
        port: usize::from(port),
        delivery_attempt_limit: 100,
        flush_interval: 60,
        ..ElasticsearchConfig::default()
    });
    let l = logline(s, 1_500_000_000);
    let act = Box::new(move || {
        for n in adds {
            for _ in 0..n {
                sink.deliver_line(l.clone());
            }
            sink.flush();
        }
        drop(mock);
    });
    let mut sc = plain(what, act, sums.into_iter().collect());
    sc.level = level.map(|n| ("sinks.elasticsearch.internal.buffer_len", n));
    sc
}

fn prometheus(s: &mut Src, w: usize) -> Scene {
    let port = port(w);
    let mut sink =
        Prometheus::init(PrometheusConfig { host: "127.0.0.1".into(), port, capacity_in_seconds: 10, age_threshold: None, ..PrometheusConfig::default() });
    let now = cernan::time::now();
    // per flush: how many old and new summaries arrive
    let rounds: Vec<(usize, usize)> = s.vec(0, 4, |s| (s.usize(0, 3), s.usize(0, 2)));
    let gets = s.usize(0, 3);
    let old: usize = rounds.iter().map(|r| r.0).sum();
    let all = old + rounds.iter().map(|r| r.1).sum::<usize>();
    let what = format!("prometheus, summaries (old, new) {:?}, {} requests", rounds, gets);
    let cell = Arc::new(std::sync::Mutex::new(None));
    let keep = Arc::clone(&cell);
    let act = Box::new(move || {
        let mut no = 0;
        for (o, n) in rounds {
            for i in 0..o + n {
                let ts = if i < o { now - 5_000 } else { now + 3 };
                let t = Telemetry::new().name(format!("p{}", no)).value(1.0).kind(K::Summarize).timestamp(ts).harden().unwrap();
                no += 1;
                sink.deliver(t);
            }
            sink.flush();
        }
        for _ in 0..gets {
            let _ = p_prom::http_get(port, "/metrics", Duration::from_secs(10));
        }
        *keep.lock().unwrap() = Some(sink);
    });
    let mut sc = plain(
        what,
        act,
        vec![
            ("sinks.prometheus.report.success", gets as u64),
            ("sinks.prometheus.aggregation.inside_baseball.windowed.purged", old as u64),
        ],
    );
    if gets > 0 && all > 0 {
        sc.level = Some(("sinks.prometheus.aggregation.reportable", all as u64));
    }
    sc.after = Some(Box::new(move || {
        let sink = cell.lock().unwrap().take();
        if let Some(sink) = sink {
            // without the requests that hurry it: their counts would come late, into the next case
            sink.shutdown();
        }
    }));
    sc
}

/// a queue which takes no more; each event it cannot take is counted
fn full(s: &mut Src) -> Scene {
    let (tx, rx, dir) = queue(s.pick(&[1000, 3000]), 3000, 1);
    let n = s.usize(20, 200);
    let late = Arc::new(AtomicUsize::new(0));
    let l2 = Arc::clone(&late);
    let act = Box::new(move || {
        let mut chans = vec![tx.clone()];
        let mut r = Rng::new(n as u64);
        for i in 0..n {
            let bytes = (0..20_000).map(|_| r.next() as u8).collect();
            util::send(&mut chans, Event::Raw { order_by: i as u64, encoding: Encoding::Raw, bytes, metadata: None, connection_id: None });
        }
        // how many of them did it take?
        let took = Arc::new(AtomicUsize::new(0));
        let t2 = Arc::clone(&took);
        thread::spawn(move || {
            for _ in rx {
                t2.fetch_add(1, Ordering::SeqCst);
            }
        });
        let mut tx = tx;
        eventually(Duration::from_secs(3), || tx.flush().is_ok());
        let mut seen = 0;
        loop {
            thread::sleep(Duration::from_millis(400));
            let now = took.load(Ordering::SeqCst);
            if now == seen {
                break;
            }
            seen = now;
        }
        l2.store(n - seen, Ordering::SeqCst);
        drop(dir);
    });
    let mut sc = plain(format!("a small queue, {} events", n), act, vec![]);
    sc.late = Some(("util.hopper.error.full", late));
    sc
}

/// stops the source on every way out of a case
struct Stop(Option<cernan::thread::ThreadHandle>);
impl Drop for Stop {
    fn drop(&mut self) {
        if let Some(th) = self.0.take() {
            let _ = join_within(Duration::from_secs(10), move || th.shutdown());
        }
    }
}

static DIRTY: AtomicBool = AtomicBool::new(false);

fn internal(s: &mut Src, c: &mut Ctx) -> Res {
    let was_dirty = DIRTY.swap(true, Ordering::SeqCst);
    if was_dirty {
        // what an abandoned case left behind
        let tap = Tap::new();
        let chans = tap.chans();
        let th = cernan::thread::spawn(move |poll| {
            Internal::init(InternalConfig::default()).run(chans, poll);
        });
        thread::sleep(Duration::from_millis(1300));
        th.shutdown();
    }
    for (_, a) in sums().into_iter().chain(levels()) {
        a.store(0, Ordering::SeqCst);
    }

    let mut want: Sums = Sums::new();
    let mut free: Vec<String> = sums().iter().map(|x| x.0.to_string()).collect();
    let mut free_levels: Vec<String> = levels().iter().map(|x| x.0.to_string()).collect();
    let mut log: Vec<String> = vec![];
    let mut last_level: BTreeMap<String, u64> = BTreeMap::new();

    // parts of cernan at work
    let mut scenes = vec![];
    let which: Vec<usize> = {
        let n = s.usize(1, 4);
        let mut v: Vec<usize> = (0..n).map(|_| s.usize(0, 10)).collect();
        v.sort();
        v.dedup();
        v
    };
    for k in which {
        let sc = match k {
            0 => delay(s),
            1 => json(s),
            2 => statsd(s, c.worker),
            3 => graphite(s, c.worker),
            4 => native(s, c.worker),
            5 => avro(s, c.worker),
            6 => wavefront(s, c.worker),
            7 => influx(s, c.worker),
            8 => elastic(s, c.worker),
            9 => prometheus(s, c.worker),
            _ => full(s),
        };
        log.push(format!("{} => {:?} {:?}", sc.what, sc.sums, sc.level));
        for (n, v) in &sc.sums {
            *want.entry(n.to_string()).or_insert(0) += v;
        }
        // the rest of what that part counts is its own business
        let pre = ["filters.delay", "filters.json", "statsd", "graphite", "native", "avro", "sinks.wavefront", "sinks.influxdb", "sinks.elasticsearch", "sinks.prometheus", "util"][k];
        free.retain(|n| !n.starts_with(pre));
        free_levels.retain(|n| !n.starts_with(pre));
        if let Some((n, v)) = sc.level {
            last_level.insert(n.to_string(), v);
        }
        let pause = s.pick(&[0u64, 0, 300, 900]);
        c.label(pre);
        scenes.push((sc, pause));
    }

    // counters added to directly, from several threads
    let nt = s.usize(0, 3);
    let mut adders: Vec<Vec<(&'static AtomicUsize, usize, u64)>> = vec![];
    let mut races = 0;
    if !free.is_empty() {
        for _ in 0..nt {
            let n = s.usize(1, 30);
            let mut v = vec![];
            let step = s.pick(&[0u64, 1, 20, 60]);
            for _ in 0..n {
                let name = s.pick(&free);
                let amt = s.usize(1, 9);
                let a = sums().into_iter().find(|x| x.0 == name).unwrap().1;
                *want.entry(name).or_insert(0) += amt as u64;
                v.push((a, amt, step));
            }
            races += (step * n as u64 > 1000) as usize;
            adders.push(v);
        }
    }
    // levels
    let mut stores: Vec<(&'static AtomicUsize, usize, u64)> = vec![];
    let mut stored: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    if !free_levels.is_empty() {
        let step = s.pick(&[0u64, 30, 400]);
        for i in 0..s.usize(0, 6) {
            let name = s.pick(&free_levels);
            let a = levels().into_iter().find(|x| x.0 == name).unwrap().1;
            let v = 10 * s.usize(1, 50) + i;
            stores.push((a, v, step));
            stored.entry(name.clone()).or_insert_with(Vec::new).push(v as u64);
            last_level.insert(name, v as u64);
        }
    }
    // reports made as they happen
    let mut reports: Vec<Vec<(String, f64, Tags, u64)>> = vec![];
    let mut want_reports: BTreeMap<String, i64> = BTreeMap::new();
    for t in 0..s.usize(0, 4) {
        let step = s.pick(&[0u64, 0, 1, 50]);
        let n = if step < 2 { s.usize(1, 60) } else { s.usize(1, 30) };
        let mut v = vec![];
        for _ in 0..n {
            let r = (format!("r{}.{}", t, name(s)), exact(s), tags(s, 3), step);
            *want_reports.entry(format!("{} {:?} {:?}", r.0, r.1, r.2)).or_insert(0) += 1;
            v.push(r);
        }
        races += (step * n as u64 > 1000) as usize;
        reports.push(v);
    }
    // counters that never rest, so that the ticks fall between additions
    let hot = if !free.is_empty() && s.chance(1, 2) { s.usize(1, 2) } else { 0 };
    let hot_ms = s.usize(1, 5) as u64 * 400;
    let hot_set: Vec<(String, &'static AtomicUsize)> =
        sums().into_iter().filter(|x| hot > 0 && free.iter().any(|f| f == x.0)).map(|x| (x.0.to_string(), x.1)).collect();
    want = want.into_iter().filter(|x| x.1 > 0).collect();
    log.push(format!("{} threads at {} counters for {} ms", hot, hot_set.len(), hot_ms));
    log.push(format!("adders {}, stores {:?}, reports {:?}", adders.len(), stored, reports.iter().map(|r| r.len()).collect::<Vec<_>>()));

    let two = s.chance(1, 3);
    let tap = Tap::new();
    let tap2 = if two { Some(Tap::new()) } else { None };
    let mut chans = tap.chans();
    if let Some(ref t) = tap2 {
        chans.push(t.sender());
    }
    take_panics();
    let th = cernan::thread::spawn(move |poll| {
        Internal::init(InternalConfig::default()).run(chans, poll);
    });
    let mut th = Stop(Some(th));
    let mut ths = vec![];
    let mut afters = vec![];
    let mut lates = vec![];
    for (sc, pause) in scenes {
        let act = sc.act;
        afters.push(sc.after);
        lates.extend(sc.late);
        ths.push(thread::spawn(move || {
            thread::sleep(Duration::from_millis(pause));
            act();
        }));
    }
    for v in adders {
        ths.push(thread::spawn(move || {
            for (a, n, step) in v {
                a.fetch_add(n, Ordering::Relaxed);
                thread::sleep(Duration::from_millis(step));
            }
        }));
    }
    let mut hots = vec![];
    for _ in 0..hot {
        let set: Vec<&'static AtomicUsize> = hot_set.iter().map(|x| x.1).collect();
        hots.push(thread::spawn(move || {
            let end = Instant::now() + Duration::from_millis(hot_ms);
            let mut n = 0u64;
            while Instant::now() < end {
                for _ in 0..20 {
                    for a in &set {
                        a.fetch_add(1, Ordering::Relaxed);
                    }
                    n += 1;
                }
            }
            n
        }));
    }
    ths.push(thread::spawn(move || {
        for (a, n, step) in stores {
            a.store(n, Ordering::Relaxed);
            thread::sleep(Duration::from_millis(step));
        }
    }));
    for v in reports {
        ths.push(thread::spawn(move || {
            for (n, x, t, step) in v {
                let md: Vec<(&str, &str)> = t.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
                source::report_full_telemetry(&n, x, if md.is_empty() { None } else { Some(md) });
                thread::sleep(Duration::from_millis(step));
            }
        }));
    }
    for h in hots {
        let n = h.join().expect("a thread that only adds");
        for (k, _) in &hot_set {
            *want.entry(k.clone()).or_insert(0) += n;
        }
        c.label("hot-counters");
    }
    let broke = ths.into_iter().map(|t| t.join()).filter(|r| r.is_err()).count();
    ensure!(broke == 0, "internal-part", "a part of cernan panicked: {:?}\n{}", take_panics(), log.join("\n"));

    for (n, v) in lates {
        let v = v.load(Ordering::SeqCst) as u64;
        log.push(format!("{} {}", n, v));
        if v > 0 {
            *want.entry(n.to_string()).or_insert(0) += v;
            c.label("full-queue");
        }
    }
    // collect until everything is there, and then for one more tick
    let all_levels: Vec<String> = levels().iter().map(|x| x.0.to_string()).collect();
    let mut got: Sums = Sums::new();
    let mut got_levels: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut got_reports: BTreeMap<String, i64> = BTreeMap::new();
    let mut raw_seq: Vec<String> = vec![];
    let mut bad: Option<(&str, String)> = None;
    let mut deadline = Instant::now() + Duration::from_secs(8);
    let mut complete = false;
    let surplus = s.chance(1, 2);
    loop {
        if !complete
            && got == want
            && got_reports == want_reports
            && last_level.iter().all(|(k, v)| got_levels.get(k).and_then(|x| x.last()) == Some(v))
        {
            complete = true;
            deadline = Instant::now() + Duration::from_millis(if surplus { 1200 } else { 0 });
        }
        let left = deadline.checked_duration_since(Instant::now());
        let left = match left {
            Some(x) => x,
            None => break,
        };
        let ev = match tap.next(left.min(Duration::from_millis(100))) {
            Some(ev) => ev,
            None => continue,
        };
        raw_seq.push(evobs(&ev));
        let t = match ev {
            Event::Telemetry(t) => t,
            e => {
                bad = Some(("internal-kind", format!("{}", evobs(&e))));
                break;
            }
        };
        let ts: Tags = t.tags(&Default::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
        if t.timestamp != cernan::time::now() {
            bad = Some(("internal-time", format!("{} has the time {}", t.name, t.timestamp)));
            break;
        }
        if !t.name.starts_with("cernan.") {
            if t.kind() != K::Sum {
                bad = Some(("internal-kind", format!("{} is a {:?}", t.name, t.kind())));
                break;
            }
            *got_reports.entry(format!("{} {:?} {:?}", t.name, t.sum().unwrap(), ts)).or_insert(0) += 1;
            continue;
        }
        let n = t.name["cernan.".len()..].to_string();
        let level = all_levels.contains(&n);
        let v = if level { t.set() } else { t.sum() };
        let v = match v {
            Some(v) if v > 0.0 && v.fract() == 0.0 && ts.is_empty() => v as u64,
            _ => {
                bad = Some(("internal-kind", format!("{} is a {:?} {:?} {:?} {:?}", t.name, t.kind(), t.sum(), t.set(), ts)));
                break;
            }
        };
        if level {
            got_levels.entry(n).or_insert_with(Vec::new).push(v);
        } else if n == "sinks.influxdb.delivery_attempts" || n == "sinks.prometheus.exposition.inside_baseball.delay.sum" {
            // depends on the clock, or on attempts: compared only when nothing but we add to it
            if want.contains_key(&n) {
                *got.entry(n).or_insert(0) += v;
            }
        } else {
            *got.entry(n).or_insert(0) += v;
        }
    }
    if let Some((sig, m)) = bad {
        return fail(sig, format!("{}\n{}", m, log.join("\n")));
    }
    let diff: Vec<String> = want
        .keys()
        .chain(got.keys())
        .filter(|k| want.get(*k) != got.get(*k))
        .map(|k| format!("{}: expected {:?}, reported {:?}", k, want.get(k), got.get(k)))
        .collect();
    ensure!(diff.is_empty(), "internal-sums", "{:?}\n{}", diff, log.join("\n"));
    let diff: Vec<String> = want_reports
        .keys()
        .chain(got_reports.keys())
        .filter(|k| want_reports.get(*k) != got_reports.get(*k))
        .map(|k| format!("{}: expected {:?}, delivered {:?}", k, want_reports.get(k), got_reports.get(k)))
        .collect();
    ensure!(diff.is_empty(), "internal-reports", "{:?}\n{}", diff, log.join("\n"));
    for (k, v) in &last_level {
        let g = got_levels.get(k).cloned().unwrap_or_default();
        ensure!(g.last() == Some(v), "internal-level", "{} ends at {}, reported {:?}\n{}", k, v, g, log.join("\n"));
    }
    for (k, vs) in &stored {
        // each value stored is told at most once, in order
        let g = got_levels.get(k).cloned().unwrap_or_default();
        let mut it = vs.iter();
        ensure!(g.iter().all(|x| it.any(|y| y == x)), "internal-level", "{}: stored {:?}, reported {:?}\n{}", k, vs, g, log.join("\n"));
    }
    let th = th.0.take().unwrap();
    let stopped = join_within(Duration::from_secs(10), move || th.shutdown());
    ensure!(stopped == Some(Ok(())), "internal-stop", "the source does not stop: {:?}\n{}", take_panics(), log.join("\n"));
    let rest = tap.drain();
    ensure!(
        rest.last().map_or(false, |e| *e == Event::Shutdown),
        "internal-stop", "no Shutdown passed on, but {:?}\n{}", rest.iter().map(evobs).collect::<Vec<_>>(), log.join("\n")
    );
    if let Some(t) = tap2 {
        let second: Vec<String> = t.drain().iter().map(evobs).collect();
        raw_seq.extend(rest.iter().map(evobs));
        ensure!(second == raw_seq, "internal-fanout", "the second forward got {:?}, the first {:?}\n{}", second, raw_seq, log.join("\n"));
    }
    for a in afters {
        if let Some(a) = a {
            a();
        }
    }
    c.nontrivial = want.len() >= 2 && (races > 0 || !want_reports.is_empty() || !last_level.is_empty());
    c.label_if(races > 0, "adding-across-ticks");
    c.label_if(two, "two-forwards");
    c.label_if(!last_level.is_empty(), "levels");
    c.label_if(surplus, "watched-for-repeats");
    c.sample(|| log.join("; "));
    DIRTY.store(false, Ordering::SeqCst);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        level: "exact accounting: what parts of cernan do and report, against what the internal source emits",
        rule: "at least two counters moved, together with a level, direct reports, or additions that span several ticks",
        assumptions: &[
            "the internal source ticks once a second; a case waits up to 8 s for the counts to arrive",
            "UDP on loopback loses nothing at the packet rates used",
        ],
        subs: vec![Sub { name: "internal", quick: 96, thorough: 1500, workers: 0, confirm: 1, f: internal }],
        known: vec![],
    }]
}
