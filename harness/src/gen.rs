//! Generators and small helpers shared by the properties.
use crate::core::*;
use cernan::metric::{AggregationMethod, Encoding, Event, LogLine, TagMap, Telemetry};
use std::collections::BTreeMap;

pub type Tags = BTreeMap<String, String>;

pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

/// ordinary metric name
pub fn name(s: &mut Src) -> String {
    let base = s.pick(&["a", "b", "foo", "foo.bar", "x.y.z", "req_time", "cpu-0"]);
    if s.chance(1, 4) {
        let a = chars("abcdefghijXYZ0123456789_.-");
        format!("{}{}", base, s.string(&a, 1, 6))
    } else {
        base.to_string()
    }
}

pub fn tag_key(s: &mut Src) -> String {
    s.pick(&["k", "host", "region", "az", "env", "k2", "k3", "role", "rack", "dc"]).to_string()
}

pub fn tag_val(s: &mut Src) -> String {
    s.pick(&["v", "w", "web-1", "us-east", "prod", "x", "1", "dev", "", "a b"]).to_string()
}

pub fn tags(s: &mut Src, hi: usize) -> Tags {
    let mut t = Tags::new();
    let n = s.usize(0, hi);
    for _ in 0..n {
        let k = tag_key(s);
        let v = tag_val(s);
        t.insert(k, v);
    }
    t
}

pub fn tagmap(t: &Tags) -> TagMap {
    let mut m = TagMap::default();
    for (k, v) in t {
        m.insert(k.clone(), v.clone());
    }
    m
}

/// values exact in binary, so that sums of a few are exact in any order
pub fn exact(s: &mut Src) -> f64 {
    let v = s.draw(4096) as f64;
    let v = if s.chance(1, 3) { v / 8.0 } else { v };
    if s.chance(1, 4) {
        -v
    } else {
        v
    }
}

/// how many samples a point has: a few, and now and then many
pub fn many(s: &mut Src, few: usize) -> usize {
    if s.chance(1, 10) {
        s.usize(20, 120)
    } else {
        s.usize(1, few)
    }
}

/// any finite value
pub fn finite(s: &mut Src) -> f64 {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => exact(s),
        1 => {
            let m = s.draw(1 << 53) as f64 / (1u64 << 53) as f64;
            let e = s.range(-300, 300) as i32;
            let v = m * 10f64.powi(e);
            if s.chance(1, 2) { -v } else { v }
        }
        2 => s.pick(&[
            0.0, -0.0, 1e308, -1e308, std::f64::MIN_POSITIVE, 5e-324, 0.1, 1.0 / 3.0,
            123456789.123456789, 1e15, 1e16, 1e21, 1e-7, std::f64::MAX,
        ]),
        _ => s.draw(1_000_000) as f64 / 1000.0,
    }
}

/// anything f64::from_str accepts
pub fn anyf(s: &mut Src) -> f64 {
    if s.chance(1, 8) {
        s.pick(&[std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY])
    } else {
        finite(s)
    }
}

pub fn kind(s: &mut Src) -> AggregationMethod {
    s.pick(&[
        AggregationMethod::Set,
        AggregationMethod::Sum,
        AggregationMethod::Summarize,
        AggregationMethod::Histogram,
    ])
}

pub fn bounds(s: &mut Src) -> Vec<f64> {
    let n = s.usize(1, 5);
    // mostly whole and small; some fractions, some beyond what an f32 can tell apart
    let how = s.weighted(&[4, 1, 1]);
    let mut b: Vec<f64> = (0..n)
        .map(|_| {
            let x = s.draw(200) as f64 - 20.0;
            match how {
                0 => x,
                1 => x / 10.0,
                _ => 16_777_217.0 * x + 0.5,
            }
        })
        .collect();
    b.sort_by(|a, b| a.partial_cmp(b).unwrap());
    b.dedup();
    b
}

pub struct Pt {
    pub name: String,
    pub kind: AggregationMethod,
    pub tags: Tags,
    pub ts: i64,
    pub persist: bool,
    pub vals: Vec<f64>,
    pub bounds: Option<Vec<f64>>,
    pub error: Option<f64>,
}

pub fn build(p: &Pt) -> Telemetry {
    let mut t = Telemetry::new()
        .name(p.name.clone())
        .kind(p.kind)
        .value(p.vals[0])
        .timestamp(p.ts)
        .persist(p.persist);
    if let Some(ref b) = p.bounds {
        t = t.bounds(b.clone());
    }
    if let Some(e) = p.error {
        t = t.error(e);
    }
    let mut t = t.harden().unwrap();
    for (k, v) in &p.tags {
        t = t.overlay_tag(k.clone(), v.clone());
    }
    for v in &p.vals[1..] {
        t = t.insert(*v);
    }
    t
}

/// f64 equality that takes NaN as equal to NaN and distinguishes nothing else
pub fn feq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// relative closeness for sums accumulated in different orders
pub fn close(a: f64, b: f64) -> bool {
    feq(a, b) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-300)
}

/// comparable image of a telemetry (its public observations)
pub fn obs(t: &Telemetry) -> String {
    let mut tags: Vec<(String, String)> =
        t.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
    tags.sort();
    let bins = t.bins().map(|b| {
        b.map(|&(ref bd, c)| (format!("{:?}", bd), c)).collect::<Vec<_>>()
    });
    format!(
        "{:?} {:?} ts={} persist={} sum={:?} set={:?} n={} total={:?} samples={:?} bins={:?} tags={:?}",
        t.name, t.kind(), t.timestamp, t.persist, t.sum(), t.set(), t.count(), t.samples_sum(),
        t.samples(), bins, tags
    )
}

pub fn logobs(l: &LogLine) -> String {
    let mut tags: Vec<(String, String)> =
        l.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
    tags.sort();
    let mut f: Vec<(&String, &String)> = l.fields.iter().collect();
    f.sort();
    format!("log path={:?} value={:?} t={} tags={:?} fields={:?}", l.path, l.value, l.time, tags, f)
}

pub fn evobs(e: &Event) -> String {
    match *e {
        Event::Telemetry(ref t) => obs(t),
        Event::Log(ref l) => logobs(l),
        Event::TimerFlush(i) => format!("flush {}", i),
        Event::Shutdown => "shutdown".to_string(),
        Event::Raw { order_by, ref encoding, ref bytes, ref metadata, ref connection_id } => {
            let md: Option<BTreeMap<Vec<u8>, Vec<u8>>> = metadata
                .as_ref()
                .map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
            format!(
                "raw by={} {:?} bytes={:?} md={:?} conn={}",
                order_by, encoding, bytes, md,
                connection_id.is_some()
            )
        }
    }
}

pub fn text(s: &mut Src, hi: usize) -> String {
    let a = chars("ab cd\"\\/{}[]:,.0123é∆\u{1F600}\t\u{7f}\u{1}'<>&%=|#;");
    s.string(&a, 0, hi)
}

pub fn logline(s: &mut Src, ts: i64) -> LogLine {
    let path = s.pick(&["/var/log/a", "p", "/b.log", "rel/path"]).to_string();
    let value = if s.chance(1, 2) { text(s, 12) } else { s.pick(&["line", "hello world", "x"]).to_string() };
    let mut l = LogLine::new(path, value).time(ts);
    for (k, v) in tags(s, 2) {
        l = l.overlay_tag(k, v);
    }
    l
}

pub fn raw(s: &mut Src) -> Event {
    let n = s.usize(0, 12);
    let bytes: Vec<u8> = (0..n).map(|_| s.draw(256) as u8).collect();
    let metadata = if s.chance(1, 2) {
        let mut m = cernan::metric::Metadata::default();
        let n = s.usize(0, 3);
        for i in 0..n {
            m.insert(format!("k{}", i).into_bytes(), vec![s.draw(256) as u8]);
        }
        Some(m)
    } else {
        None
    };
    Event::Raw {
        order_by: s.u64(),
        encoding: s.pick(&[Encoding::Raw, Encoding::Avro, Encoding::JSON]),
        bytes,
        metadata,
        connection_id: None,
    }
}

pub fn telem(s: &mut Src, ts: i64) -> Telemetry {
    let k = kind(s);
    let p = Pt {
        name: name(s),
        kind: k,
        tags: tags(s, 3),
        ts,
        persist: s.chance(1, 4),
        vals: {
            let n = s.usize(1, 4);
            (0..n).map(|_| exact(s)).collect()
        },
        bounds: if k == AggregationMethod::Histogram && s.chance(1, 2) { Some(bounds(s)) } else { None },
        error: None,
    };
    build(&p)
}
