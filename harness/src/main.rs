#[macro_use]
extern crate serde_json;
#[macro_use]
pub mod core;
pub mod stubs;
pub mod gen;
pub mod io;
pub mod p_metric;
pub mod p_loop;
pub mod p_filter;
pub mod p_statsd;
pub mod p_native;
pub mod mock;
mod p_config;
mod p_console;
mod p_file;
mod p_http;
mod p_internal;
mod p_e2e;
mod p_stop;
mod p_any;
mod p_lua;
mod p_kafka;
mod p_prom;
pub mod p_tcp;
pub mod p_wave;

fn props() -> Vec<core::Prop> {
    let mut v = vec![];
    v.extend(p_metric::props());
    v.extend(p_statsd::props());
    v.extend(p_tcp::props());
    v.extend(p_native::props());
    v.extend(p_loop::props());
    v.extend(p_filter::props());
    v.extend(p_wave::props());
    v.extend(p_prom::props());
    v.extend(p_http::props());
    v.extend(p_internal::props());
    v.extend(p_e2e::props());
    v.extend(p_stop::props());
    v.extend(p_any::props());
    v.extend(p_lua::props());
    v.extend(p_kafka::props());
    v.extend(p_file::props());
    v.extend(p_console::props());
    v.extend(p_config::props());
    v
}

fn main() {
    core::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).expect("unknown property");
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => core::run(find(&a[2]), &a[3], a[4].parse().unwrap_or(1)),
        Some("worker") => {
            core::worker(
                find(&a[2]), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(),
                a[6].parse().unwrap(), a[7].parse().unwrap(), a[8] == "1", &a[9],
            );
            0
        }
        Some("record") => {
            core::record(find(&a[2]), &a[3], a[4].parse().unwrap(), &a[5]);
            0
        }
        Some("one") => core::one(&ps, &a[2]),
        Some("known") => core::known(find(&a[2]), &a[3]),
        Some("list") => {
            for p in &ps {
                println!("{} {:?}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>());
            }
            0
        }
        _ => 64,
    };
    std::process::exit(code);
}
