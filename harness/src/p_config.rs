//! C22 configuration: generated documents through the real parser, compared
//! with what was written.
use crate::core::*;
use crate::ensure;
use cernan::config::{parse_config, Args};
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use tempdir::TempDir;

type Map = BTreeMap<String, String>;

#[derive(Clone, Debug)]
enum V {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    A(Vec<V>),
}

fn quote(s: &mut Src, x: &str) -> String {
    let plain = !x.contains('\'') && !x.chars().any(|c| (c as u32) < 32 || c as u32 == 127);
    match s.weighted(&[3, 1, 1]) {
        1 if plain => format!("'{}'", x),
        2 if plain => format!("'''{}'''", x),
        _ => {
            let mut o = String::from("\"");
            for c in x.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04X}", c as u32)),
                    c if c as u32 > 127 && s.chance(1, 3) => o.push_str(&format!("\\U{:08X}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
    }
}

fn bare(k: &str) -> bool {
    !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
}

fn key(s: &mut Src, k: &str) -> String {
    if bare(k) && !s.chance(1, 8) {
        k.to_string()
    } else {
        let mut o = String::from("\"");
        for c in k.chars() {
            if c == '"' || c == '\\' {
                o.push('\\');
            }
            o.push(c);
        }
        o.push('"');
        o
    }
}

fn show(s: &mut Src, v: &V) -> String {
    match *v {
        V::S(ref x) => quote(s, x),
        V::I(i) => match s.weighted(&[4, 1, 1]) {
            1 if i > 999 => {
                let t = format!("{}", i);
                let at = t.len() - 3;
                format!("{}_{}", &t[..at], &t[at..])
            }
            2 if i >= 0 => format!("+{}", i),
            _ => format!("{}", i),
        },
        V::F(f) => {
            let t = format!("{}", f);
            if t.contains('.') {
                if s.chance(1, 5) { format!("{}e0", t) } else { t }
            } else {
                format!("{}.0", t)
            }
        }
        V::B(b) => format!("{}", b),
        V::A(ref xs) => {
            let xs: Vec<String> = xs.iter().map(|x| show(s, x)).collect();
            match s.weighted(&[3, 1, 1]) {
                1 => format!("[\n    {}\n  ]", xs.join(",\n    ")),
                2 if !xs.is_empty() => format!("[ {}, ]", xs.join(" ,")),
                _ => format!("[{}]", xs.join(", ")),
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Table {
    path: Vec<String>,
    items: Vec<(String, V)>,
    /// a subtable which may also be written in one line
    inline: Vec<(String, Vec<(String, V)>)>,
}

fn shuffle<T>(s: &mut Src, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = i - s.usize(0, i);
        v.swap(i, j);
    }
}

fn write(s: &mut Src, top: &[(String, V)], tables: &[Table]) -> String {
    let mut o = String::new();
    let item = |s: &mut Src, o: &mut String, k: &str, v: &V| {
        let k = key(s, k);
        let v = show(s, v);
        let pre = s.pick(&["", "  ", "\t"]);
        let eq = s.pick(&[" = ", "=", "  =\t"]);
        let post = s.pick(&["", "", " # a comment = 1", "  "]);
        o.push_str(&format!("{}{}{}{}{}\n", pre, k, eq, v, post));
        if s.chance(1, 8) {
            o.push_str("# [sinks.null]\n\n");
        }
    };
    let mut top = top.to_vec();
    shuffle(s, &mut top);
    for (k, v) in &top {
        item(s, &mut o, k, v);
    }
    let mut flat: Vec<Table> = vec![];
    for t in tables {
        let mut u = Table { path: t.path.clone(), items: t.items.clone(), inline: vec![] };
        for (k, sub) in &t.inline {
            if s.chance(1, 3) {
                u.inline.push((k.clone(), sub.clone()));
            } else {
                let mut p = t.path.clone();
                p.push(k.clone());
                flat.push(Table { path: p, items: sub.clone(), inline: vec![] });
            }
        }
        flat.push(u);
    }
    // headers without a body, which change nothing
    for h in &["sources", "sinks", "filters"] {
        if flat.iter().any(|t| t.path[0] == *h) && s.chance(1, 3) {
            flat.push(Table { path: vec![h.to_string()], items: vec![], inline: vec![] });
        }
    }
    for (a, b) in &[("sources", "statsd"), ("sources", "files"), ("sinks", "kafka"), ("filters", "delay")] {
        if flat.iter().any(|t| t.path.len() > 2 && t.path[0] == *a && t.path[1] == *b) && s.chance(1, 4) {
            flat.push(Table { path: vec![a.to_string(), b.to_string()], items: vec![], inline: vec![] });
        }
    }
    shuffle(s, &mut flat);
    // a table written in its parent's line forbids headers below it only; a
    // parent after its child is fine
    for t in &flat {
        let p: Vec<String> = t.path.iter().map(|k| key(s, k)).collect();
        let pre = s.pick(&["", "  "]);
        o.push_str(&format!("{}[{}]\n", pre, p.join(".")));
        let mut items = t.items.clone();
        shuffle(s, &mut items);
        for (k, v) in &items {
            item(s, &mut o, k, v);
        }
        for (k, sub) in &t.inline {
            let body: Vec<String> = sub
                .iter()
                .map(|(k, v)| {
                    let k = key(s, k);
                    let v = show(s, v).replace("\n", " ");
                    format!("{} = {}", k, v)
                })
                .collect();
            let k = key(s, k);
            o.push_str(&format!("{} = {{ {} }}\n", k, body.join(", ")));
        }
    }
    o
}

fn word(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 1]) {
        0 => s.string(&['a', 'b', 'c', '_', '-', '1'], 1, 6),
        1 => s.string(&['a', ' ', '.', '/', ':', 'é'], 1, 8),
        _ => s.string(&['"', '\\', '\'', '#', '\n', '\t', '漢', '=', '[', '\u{1}'], 1, 5),
    }
}

fn comp_name(s: &mut Src) -> String {
    s.pick(&["primary", "a", "b", "c-1", "x_y", "0", "two words", "a.b", "é", "enabled", "path", "Primary"]).to_string()
}

fn flush(s: &mut Src) -> (V, u64) {
    if s.chance(1, 3) {
        let q = s.draw(1000) as f64 / 4.0;
        (V::F(q), (q * 100.0) as u64)
    } else {
        let i = s.pick(&[1i64, 0, 5, 60, 3600, 100_000]);
        (V::I(i), i as u64 * 100)
    }
}

/// one table and what it should come to
struct B<'a> {
    t: Table,
    exp: &'a mut Map,
    cp: String,
}
impl<'a> B<'a> {
    fn put<T: std::fmt::Debug>(&mut self, k: &str, v: T) {
        self.exp.insert(format!("{} {}", self.cp, k), format!("{:?}", v));
    }
    fn opt<T: std::fmt::Debug, F: FnOnce(&mut Src) -> (V, T)>(&mut self, s: &mut Src, k: &str, field: &str, default: T, f: F) {
        let v = if s.chance(1, 2) {
            let (v, x) = f(s);
            self.t.items.push((k.to_string(), v));
            x
        } else {
            default
        };
        self.put(field, v);
    }
    fn int(&mut self, s: &mut Src, k: &str, default: i64, vals: &[i64]) {
        self.opt(s, k, k, default, |s| {
            let i = s.pick(vals);
            (V::I(i), i)
        })
    }
    fn string(&mut self, s: &mut Src, k: &str, default: &str) {
        self.opt(s, k, k, default.to_string(), |s| {
            let x = word(s);
            (V::S(x.clone()), x)
        })
    }
    fn boolean(&mut self, s: &mut Src, k: &str, default: bool) {
        self.opt(s, k, k, default, |s| {
            let b = s.chance(1, 2);
            (V::B(b), b)
        })
    }
    fn forwards(&mut self, s: &mut Src, must: bool) {
        let some = must || s.chance(3, 4);
        let f: Vec<String> = if some {
            let lo = if must { 1 } else { 0 };
            s.vec(lo, 3, |s| {
                if s.chance(1, 4) {
                    word(s)
                } else {
                    s.pick(&["sinks.console", "sinks.null", "filters.delay.a", "filters.programmable.two words"]).to_string()
                }
            })
        } else {
            vec![]
        };
        if some {
            self.t.items.push(("forwards".to_string(), V::A(f.iter().map(|x| V::S(x.clone())).collect())));
        }
        self.put("forwards", f);
    }
    fn flush_interval(&mut self, s: &mut Src, global: u64) {
        self.opt(s, "flush_interval", "flush_interval", global, |s| flush(s))
    }
    fn noise(&mut self, s: &mut Src) {
        if s.chance(1, 6) {
            self.t.items.push(("not_an_option".to_string(), V::I(1)));
        }
    }
}

const PORTS: &[i64] = &[1, 0, 80, 8080, 65_535, 32_768];

fn document(s: &mut Src) -> (Vec<(String, V)>, Vec<Table>, Map, usize) {
    let mut exp = Map::new();
    let mut top: Vec<(String, V)> = vec![];
    let mut tables: Vec<Table> = vec![];
    let mut skipped = 0;
    for (k, d) in &[
        ("max-hopper-queue-bytes", 104_857_600i64),
        ("max-hopper-queue-files", 100),
        ("max-hopper-in-memory-bytes", 1_048_576),
    ] {
        let mut v = *d;
        if s.chance(1, 3) {
            v = s.pick(&[1i64, 1024, 4_294_967_296, 123_456]);
            top.push((k.to_string(), V::I(v)));
        }
        exp.insert(k.to_string(), format!("{:?}", v));
    }
    let mut scripts = "/tmp/cernan-scripts".to_string();
    for k in &["data-directory", "scripts-directory"] {
        let mut v = format!("/tmp/cernan-{}", &k[..k.len() - 10]);
        if s.chance(1, 2) {
            v = s.pick(&["data/", "/var/lib/cernan", "é x", "."]).to_string();
            top.push((k.to_string(), V::S(v.clone())));
        }
        exp.insert(k.to_string(), format!("{:?}", Path::new(&v)));
        if *k == "scripts-directory" {
            scripts = v;
        }
    }
    let mut global = 6000;
    if s.chance(1, 2) {
        let (v, x) = flush(s);
        top.push(("flush-interval".to_string(), v));
        global = x;
    }
    exp.insert("flush-interval".to_string(), format!("{:?}", global));
    // global tags
    let mut tags: BTreeMap<String, String> = BTreeMap::new();
    if s.chance(2, 3) {
        let mut t = Table { path: vec!["tags".to_string()], items: vec![], inline: vec![] };
        for _ in 0..s.usize(0, 4) {
            let k = s.pick(&["source", "env", "a b", "x.y", "é", "host-1"]).to_string();
            if tags.contains_key(&k) {
                continue;
            }
            if s.chance(1, 4) {
                let var = s.pick(&["VH_ENV_A", "VH_ENV_B"]).to_string();
                let val = if var == "VH_ENV_A" { "from the environment" } else { "" };
                t.inline.push((k.clone(), vec![("environment".to_string(), V::B(true)), ("value".to_string(), V::S(var))]));
                tags.insert(k, val.to_string());
            } else {
                let v = word(s);
                t.items.push((k.clone(), V::S(v.clone())));
                tags.insert(k, v);
            }
        }
        tables.push(t);
    }
    let tagd = format!("{:?}", tags);
    macro_rules! comp {
        ($path:expr, $b:ident, $body:block) => {{
            let path: Vec<String> = $path;
            let cp = path.join(".");
            if !exp.keys().any(|k| k.starts_with(&format!("{} ", cp))) && !tables.iter().any(|t: &Table| t.path == path) {
                let mut sub = Map::new();
                let (t, keep) = {
                    let mut $b = B { t: Table { path: path, items: vec![], inline: vec![] }, exp: &mut sub, cp: cp };
                    $b.put("exists", true);
                    $b.noise(s);
                    let keep: bool = $body;
                    ($b.t, keep)
                };
                if keep {
                    exp.extend(sub);
                } else {
                    skipped += 1;
                }
                tables.push(t);
            }
        }};
    }
    let p3 = |a: &str, b: &str, c: String| vec![a.to_string(), b.to_string(), c];
    let p2 = |a: &str, b: &str| vec![a.to_string(), b.to_string()];
    for _ in 0..s.usize(1, 7) {
        match s.draw(19) {
            0 => comp!(p2("sinks", "null"), b, { b.t.path.len() == 2 }),
            1 => comp!(p2("sinks", "console"), b, {
                b.int(s, "bin_width", 1, &[1, 2, 60, 1_000_000]);
                b.flush_interval(s, global);
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                true
            }),
            2 => comp!(p2("sinks", "wavefront"), b, {
                b.int(s, "port", 2878, PORTS);
                b.string(s, "host", "localhost");
                b.int(s, "bin_width", 1, &[1, 2, 60, 1_000_000]);
                b.opt(s, "age_threshold", "age_threshold", None, |s| {
                    let i = s.pick(&[0i64, 1, 10, 86_400]);
                    (V::I(i), Some(i))
                });
                let mut pad = [false; 4];
                if s.chance(1, 2) {
                    let mut sub = vec![];
                    for (i, k) in ["set", "sum", "summarize", "histogram"].iter().enumerate() {
                        if s.chance(1, 2) {
                            pad[i] = s.chance(1, 2);
                            sub.push((k.to_string(), V::B(pad[i])));
                        }
                    }
                    b.t.inline.push(("padding".to_string(), sub));
                }
                b.put("padding", pad);
                let mut pc: BTreeMap<String, f64> = [
                    ("min", 0.0), ("max", 1.0), ("2", 0.02), ("9", 0.09), ("25", 0.25), ("50", 0.5), ("75", 0.75),
                    ("90", 0.9), ("91", 0.91), ("95", 0.95), ("98", 0.98), ("99", 0.99), ("999", 0.999),
                ].iter().map(|x| (x.0.to_string(), x.1)).collect();
                if s.chance(1, 2) {
                    pc.clear();
                    for _ in 0..s.usize(0, 4) {
                        let k = s.pick(&["min", "p50", "99", "one third", "max"]).to_string();
                        let q = s.draw(1001) as f64 / 1000.0;
                        pc.insert(k, q);
                    }
                    b.t.inline.push(("percentiles".to_string(), pc.iter().map(|(k, v)| (k.clone(), V::F(*v))).collect()));
                }
                b.put("percentiles", pc);
                b.flush_interval(s, global);
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                true
            }),
            3 => comp!(p2("sinks", "influxdb"), b, {
                b.int(s, "port", 8086, PORTS);
                b.string(s, "host", "localhost");
                b.string(s, "db", "cernan");
                b.boolean(s, "secure", true);
                b.flush_interval(s, global);
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                true
            }),
            4 => comp!(p2("sinks", "prometheus"), b, {
                b.int(s, "port", 8086, PORTS);
                b.string(s, "host", "localhost");
                b.int(s, "capacity_in_seconds", 600, &[1, 60, 86_400]);
                b.boolean(s, "gzip", false);
                b.opt(s, "age_threshold", "age_threshold", None, |s| {
                    let i = s.pick(&[0i64, 1, 10, 86_400]);
                    (V::I(i), Some(i))
                });
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                true
            }),
            5 => comp!(p2("sinks", "elasticsearch"), b, {
                b.int(s, "port", 9200, PORTS);
                b.string(s, "host", "127.0.0.1");
                b.boolean(s, "secure", false);
                b.string(s, "index_type", "payload");
                b.int(s, "delivery_attempt_limit", 10, &[0, 1, 255]);
                b.opt(s, "index-prefix", "index-prefix", None, |s| {
                    let x = word(s);
                    (V::S(x.clone()), Some(x))
                });
                b.flush_interval(s, global);
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                true
            }),
            6 => comp!(p2("sinks", "native"), b, {
                b.int(s, "port", 1972, PORTS);
                b.string(s, "host", "localhost");
                b.flush_interval(s, global);
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                true
            }),
            7 | 8 => comp!(p3("sinks", "kafka", comp_name(s)), b, {
                let mut keep = true;
                if s.chance(1, 3) {
                    keep = s.chance(1, 2);
                    b.t.items.push(("enabled".to_string(), V::B(keep)));
                }
                for k in &["topic", "brokers"] {
                    if s.chance(1, 12) {
                        keep = false;
                    } else {
                        let x = word(s);
                        b.t.items.push((k.to_string(), V::S(x.clone())));
                        b.put(k, x);
                    }
                }
                b.int(s, "max_message_bytes", 10 * 1024 * 1024, &[1, 1000, 1_000_000_000]);
                b.flush_interval(s, global);
                let mut rd: Option<BTreeMap<String, String>> = None;
                if s.chance(1, 2) {
                    let mut m = BTreeMap::new();
                    let mut sub = vec![];
                    for k in &["queue.buffering.max.ms", "acks", "x y", "retries"] {
                        if s.chance(1, 2) {
                            continue;
                        }
                        let (v, x) = match s.draw(5) {
                            0 => (V::I(17), "17".to_string()),
                            1 => (V::I(-1), "-1".to_string()),
                            2 => (V::B(true), "true".to_string()),
                            3 => (V::F(0.5), "0.5".to_string()),
                            _ => {
                                let w = word(s);
                                (V::S(w.clone()), w)
                            }
                        };
                        sub.push((k.to_string(), v));
                        m.insert(k.to_string(), x);
                    }
                    b.t.inline.push(("librdkafka".to_string(), sub));
                    rd = Some(m);
                }
                b.put("librdkafka", rd);
                keep
            }),
            9 => comp!(p3("filters", "delay", comp_name(s)), b, {
                let keep = !s.chance(1, 8);
                if keep {
                    let i = s.pick(&[0i64, 1, 60, -1, 100_000]);
                    b.t.items.push(("tolerance".to_string(), V::I(i)));
                    b.put("tolerance", i);
                }
                b.forwards(s, false);
                keep
            }),
            10 => comp!(p3("filters", "flush_boundary", comp_name(s)), b, {
                let keep = !s.chance(1, 8);
                if keep {
                    let i = s.pick(&[0i64, 1, 60, 100_000]);
                    b.t.items.push(("tolerance".to_string(), V::I(i)));
                    b.put("tolerance", i);
                }
                b.forwards(s, false);
                keep
            }),
            11 => comp!(p3("filters", "json_encode", comp_name(s)), b, {
                b.boolean(s, "parse_line", false);
                b.forwards(s, false);
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                true
            }),
            12 => comp!(p3("filters", "programmable", comp_name(s)), b, {
                let keep = !s.chance(1, 8);
                if keep {
                    let x = s.pick(&["a.lua", "sub/dir.lua", "/abs/b.lua", "é.lua"]).to_string();
                    b.t.items.push(("script".to_string(), V::S(x.clone())));
                    let full = if x.starts_with('/') { x } else if scripts.ends_with('/') { format!("{}{}", scripts, x) } else { format!("{}/{}", scripts, x) };
                    b.put("script", full);
                }
                b.put("scripts_directory", &scripts);
                b.forwards(s, false);
                b.exp.insert(format!("{} tags", b.cp), tagd.clone());
                keep
            }),
            13 => comp!(p3("sources", "files", comp_name(s)), b, {
                let keep = !s.chance(1, 8);
                if keep {
                    let x = s.pick(&["example.log", "/var/log/*.log", "/tmp/é x/**/y"]).to_string();
                    b.t.items.push(("path".to_string(), V::S(x.clone())));
                    b.put("path", x);
                }
                b.int(s, "max_read_bytes", 2048, &[1, 1000, 1_000_000_000_000]);
                b.forwards(s, false);
                keep
            }),
            14 => comp!(p3("sources", "statsd", comp_name(s)), b, {
                let mut keep = true;
                if s.chance(1, 3) {
                    keep = s.chance(1, 2);
                    b.t.items.push(("enabled".to_string(), V::B(keep)));
                }
                b.int(s, "port", 8125, PORTS);
                b.string(s, "host", "localhost");
                b.forwards(s, true);
                b.opt(s, "summarize_error_bound", "summarize_error_bound", 0.01, |s| {
                    let f = s.pick(&[0.001, 0.5, 0.02]);
                    (V::F(f), f)
                });
                let mut masks: BTreeMap<String, Vec<f64>> = BTreeMap::new();
                for _ in 0..s.weighted(&[3, 1, 1, 1]) {
                    let m = s.pick(&["foo.*", "^a$", "[0-9]+\\.x", "é"]).to_string();
                    let bounds: Vec<f64> = (0..s.usize(0, 4)).map(|_| s.draw(4000) as f64 / 8.0 - 50.0).collect();
                    if masks.contains_key(&m) {
                        continue;
                    }
                    let name = format!("m{}", masks.len());
                    b.t.inline.push((
                        "mapping".to_string() + "\0" + &name,
                        vec![
                            ("mask".to_string(), V::S(m.clone())),
                            ("bounds".to_string(), V::A(bounds.iter().map(|x| V::F(*x)).collect())),
                        ],
                    ));
                    masks.insert(m, bounds);
                }
                b.put("mapping", masks);
                keep
            }),
            15 | 16 => {
                let avro = s.chance(1, 2);
                comp!(p3("sources", if avro { "avro" } else { "graphite" }, comp_name(s)), b, {
                    let mut keep = true;
                    if s.chance(1, 3) {
                        keep = s.chance(1, 2);
                        b.t.items.push(("enabled".to_string(), V::B(keep)));
                    }
                    b.int(s, "port", if avro { 2002 } else { 2003 }, PORTS);
                    b.string(s, "host", "localhost");
                    b.forwards(s, true);
                    keep
                })
            }
            17 => comp!(p3("sources", "native", comp_name(s)), b, {
                let mut keep = true;
                if s.chance(1, 3) {
                    keep = s.chance(1, 2);
                    b.t.items.push(("enabled".to_string(), V::B(keep)));
                }
                b.int(s, "port", 1972, PORTS);
                b.string(s, "ip", "0.0.0.0");
                b.forwards(s, false);
                keep
            }),
            _ => comp!(p2("sources", "internal"), b, {
                b.forwards(s, false);
                true
            }),
        }
    }
    if !exp.contains_key("sources.internal exists") {
        exp.insert("sources.internal exists".to_string(), "true".to_string());
        exp.insert("sources.internal forwards".to_string(), "[]".to_string());
    }
    // the mappings of a statsd source are tables of a table
    let mut more = vec![];
    for t in tables.iter_mut() {
        let (a, b): (Vec<_>, Vec<_>) = t.inline.drain(..).partition(|x| x.0.contains('\0'));
        t.inline = b;
        if !a.is_empty() {
            let mut p = t.path.clone();
            p.push("mapping".to_string());
            more.push(Table { path: p, items: vec![], inline: a.into_iter().map(|(k, v)| (k.split('\0').nth(1).unwrap().to_string(), v)).collect() });
        }
    }
    tables.extend(more);
    (top, tables, exp, skipped)
}

fn flatten(a: &Args) -> (Map, Vec<String>) {
    let mut m = Map::new();
    let mut order = vec![];
    let mut put = |cp: &str, k: &str, v: String| {
        m.insert(format!("{} {}", cp, k), v);
    };
    macro_rules! p {
        ($cp:expr, $k:expr, $v:expr) => {
            put(&$cp, $k, format!("{:?}", $v))
        };
    }
    fn t(x: &cernan::metric::TagMap) -> BTreeMap<String, String> {
        x.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    let path = |x: &Option<String>| x.clone().unwrap_or_else(|| "NO NAME".to_string());
    if let Some(ref c) = a.null {
        p!(c.config_path, "exists", true);
    }
    if let Some(ref c) = a.console {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "bin_width", c.bin_width);
        p!(cp, "flush_interval", c.flush_interval);
        p!(cp, "tags", t(&c.tags));
    }
    if let Some(ref c) = a.wavefront {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "port", c.port);
        p!(cp, "host", c.host);
        p!(cp, "bin_width", c.bin_width);
        p!(cp, "age_threshold", c.age_threshold);
        let pc = &c.pad_control;
        p!(cp, "padding", [pc.set, pc.sum, pc.summarize, pc.histogram]);
        let n: BTreeMap<String, f64> = c.percentiles.iter().cloned().collect();
        if n.len() != c.percentiles.len() {
            p!(cp, "percentiles repeated", c.percentiles);
        }
        order.push(format!("{:?}", c.percentiles));
        p!(cp, "percentiles", n);
        p!(cp, "flush_interval", c.flush_interval);
        p!(cp, "tags", t(&c.tags));
    }
    if let Some(ref c) = a.influxdb {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "port", c.port);
        p!(cp, "host", c.host);
        p!(cp, "db", c.db);
        p!(cp, "secure", c.secure);
        p!(cp, "flush_interval", c.flush_interval);
        p!(cp, "tags", t(&c.tags));
    }
    if let Some(ref c) = a.prometheus {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "port", c.port);
        p!(cp, "host", c.host);
        p!(cp, "capacity_in_seconds", c.capacity_in_seconds);
        p!(cp, "gzip", c.gzip);
        p!(cp, "age_threshold", c.age_threshold);
        p!(cp, "tags", t(&c.tags));
    }
    if let Some(ref c) = a.elasticsearch {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "port", c.port);
        p!(cp, "host", c.host);
        p!(cp, "secure", c.secure);
        p!(cp, "index_type", c.index_type);
        p!(cp, "index-prefix", c.index_prefix);
        p!(cp, "delivery_attempt_limit", c.delivery_attempt_limit);
        p!(cp, "flush_interval", c.flush_interval);
        p!(cp, "tags", t(&c.tags));
    }
    if let Some(ref c) = a.native_sink_config {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "port", c.port);
        p!(cp, "host", c.host);
        p!(cp, "flush_interval", c.flush_interval);
        p!(cp, "tags", t(&c.tags));
    }
    for c in a.kafkas.iter().flat_map(|x| x) {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "topic", c.topic_name.clone().unwrap_or_default());
        p!(cp, "brokers", c.brokers.clone().unwrap_or_default());
        p!(cp, "max_message_bytes", c.max_message_bytes);
        p!(cp, "flush_interval", c.flush_interval);
        let rd: Option<BTreeMap<String, String>> = c.rdkafka_config.clone().map(|x| x.into_iter().collect());
        p!(cp, "librdkafka", rd);
        order.push(cp);
    }
    for (k, c) in a.delay_filters.iter().flat_map(|x| x) {
        p!(k, "exists", path(&c.config_path) == *k);
        p!(k, "tolerance", c.tolerance);
        p!(k, "forwards", c.forwards);
    }
    for (k, c) in a.flush_boundary_filters.iter().flat_map(|x| x) {
        p!(k, "exists", path(&c.config_path) == *k);
        p!(k, "tolerance", c.tolerance);
        p!(k, "forwards", c.forwards);
    }
    for (k, c) in a.json_encode_filters.iter().flat_map(|x| x) {
        p!(k, "exists", path(&c.config_path) == *k);
        p!(k, "parse_line", c.parse_line);
        p!(k, "forwards", c.forwards);
        p!(k, "tags", t(&c.tags));
    }
    for (k, c) in a.programmable_filters.iter().flat_map(|x| x) {
        p!(k, "exists", path(&c.config_path) == *k);
        p!(k, "script", c.script.clone().unwrap_or_default());
        p!(k, "scripts_directory", c.scripts_directory.clone().unwrap_or_default());
        p!(k, "forwards", c.forwards);
        p!(k, "tags", t(&c.tags));
    }
    for c in a.files.iter().flat_map(|x| x) {
        let cp = path(&c.config_path);
        p!(cp, "exists", true);
        p!(cp, "path", c.path.clone().unwrap_or_default());
        p!(cp, "max_read_bytes", c.max_read_bytes);
        p!(cp, "forwards", c.forwards);
        order.push(cp);
    }
    for (k, c) in a.statsds.iter().flat_map(|x| x) {
        p!(k, "exists", true);
        p!(k, "port", c.port);
        p!(k, "host", c.host);
        p!(k, "forwards", c.forwards);
        p!(k, "summarize_error_bound", c.parse_config.summarize_error_bound);
        let masks: BTreeMap<String, Vec<f64>> =
            c.parse_config.histogram_masks.iter().map(|x| (x.0.as_str().to_string(), x.1.clone())).collect();
        if masks.len() != c.parse_config.histogram_masks.len() {
            p!(k, "mapping repeated", true);
        }
        p!(k, "mapping", masks);
        order.push(format!("{} {:?}", k, c.parse_config.histogram_masks.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()));
    }
    for (k, c) in a.graphites.iter().flat_map(|x| x) {
        p!(k, "exists", true);
        p!(k, "port", c.port);
        p!(k, "host", c.host);
        p!(k, "forwards", c.forwards);
    }
    for (k, c) in a.avros.iter().flat_map(|x| x) {
        p!(k, "exists", true);
        p!(k, "port", c.port);
        p!(k, "host", c.host);
        p!(k, "forwards", c.forwards);
    }
    for (k, c) in a.native_server_config.iter().flat_map(|x| x) {
        p!(k, "exists", path(&c.config_path) == *k);
        p!(k, "port", c.port);
        p!(k, "ip", c.ip);
        p!(k, "forwards", c.forwards);
    }
    let cp = path(&a.internal.config_path);
    p!(cp, "exists", true);
    p!(cp, "forwards", a.internal.forwards);
    m.insert("max-hopper-queue-bytes".to_string(), format!("{:?}", a.max_hopper_queue_bytes));
    m.insert("max-hopper-queue-files".to_string(), format!("{:?}", a.max_hopper_queue_files));
    m.insert("max-hopper-in-memory-bytes".to_string(), format!("{:?}", a.max_hopper_in_memory_bytes));
    m.insert("data-directory".to_string(), format!("{:?}", a.data_directory));
    m.insert("scripts-directory".to_string(), format!("{:?}", a.scripts_directory));
    m.insert("flush-interval".to_string(), format!("{:?}", a.flush_interval));
    order.sort();
    (m, order)
}

fn parse(dir: &Path, doc: &str) -> Result<(Map, Vec<String>), Fail> {
    let f = dir.join("cernan.toml");
    fs::write(&f, doc).unwrap();
    let f = f.to_str().unwrap().to_string();
    let r = guard(|| flatten(&parse_config(&f)));
    match r {
        Ok(x) => Ok(x),
        Err(e) => fail("config-refused", format!("a valid document is refused: {}\n{}", e, doc)),
    }
}

fn config(s: &mut Src, c: &mut Ctx) -> Res {
    let _ = take_panics();
    std::env::set_var("VH_ENV_A", "from the environment");
    std::env::set_var("VH_ENV_B", "");
    let dir = TempDir::new("vhc").expect("scratch directory");
    let (top, tables, exp, skipped) = document(s);
    let doc = write(s, &top, &tables);
    let (got, order) = parse(dir.path(), &doc)?;
    for (k, v) in &exp {
        ensure!(
            got.get(k) == Some(v),
            "config-value",
            "{} is {}, expected {}\n{}",
            k,
            got.get(k).map_or("absent", |x| x.as_str()),
            v,
            doc
        );
    }
    for (k, v) in &got {
        ensure!(exp.contains_key(k), "config-extra", "{} is {} and was not asked for\n{}", k, v, doc);
    }
    let other = write(s, &top, &tables);
    let (got2, order2) = parse(dir.path(), &other)?;
    ensure!(got2 == got && order == order2, "config-order", "the same document written in another order means something else: {:?} {:?}\n{}\n---\n{}", order, order2, doc, other);
    c.nontrivial = tables.len() > 1;
    c.label_if(skipped > 0, "disabled-or-incomplete");
    c.label_if(tables.len() > 5, "many-tables");
    c.label_if(tables.iter().any(|t| t.path[0] == "tags" && !t.items.is_empty()), "global-tags");
    c.sample(|| doc.clone());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        level: "exploration",
        rule: "random documents over every source, filter, sink and option, written in random order and style, through the real parser; every resulting option compared with the one written or the default; non-trivial = several tables",
        assumptions: &["documents are valid: ports below 65536, non-negative intervals, a forward for every statsd, graphite and avro source"],
        subs: vec![Sub { name: "config", quick: 60_000, thorough: 2_000_000, workers: 0, confirm: 0, f: config }],
        known: vec![],
    }]
}
