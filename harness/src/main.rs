mod big;
mod cases;
mod cost;
mod cursor;
#[cfg(feature = "full")]
mod deep;
mod ds;
#[cfg(feature = "full")]
mod full;
mod instr;
mod log;
mod replay;
mod sched;
mod trace;

use instr::Rng;
use std::collections::HashMap;

#[global_allocator]
static HEAP: instr::Heap = instr::Heap;

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let opts: HashMap<String, String> = args
        .map(|a| {
            let (k, v) = a.split_once('=').expect("key=value");
            (k.to_string(), v.to_string())
        })
        .collect();
    let get = |k: &str, d: &str| opts.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| opts.get(k).map_or(d, |v| v.parse().expect("number"));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("CONF_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    let mut rng = Rng::new(num("seed", 1));
    match cmd.as_str() {
        "api" => {
            let mut log = log::Log::create(&get("out", "/dev/null"));
            let f = trace::Focus::parse(&get("focus", "").replace(':', "="));
            for k in get("kinds", "list").split(',') {
                trace::drive_kind(
                    &mut log,
                    &mut rng,
                    &f,
                    k,
                    num("rounds", 8) as usize,
                    num("steps", 200) as usize,
                );
            }
        }
        "cases" => {
            let mut log = log::Log::create(&get("out", "/dev/null"));
            let n = num("n", 100) as usize;
            for k in get("kinds", "list").split(',') {
                match get("what", "pair").as_str() {
                    "pair" => cases::pairs_of(&mut log, &mut rng, k, n),
                    "rel" => cases::rels_of(&mut log, &mut rng, k, n),
                    "coll" => cases::colls_of(&mut log, &mut rng, k, n),
                    "big" => big::bigs_of(&mut log, &mut rng, k, n, num("size", 140_000) as i64),
                    "ctor" => cases::ctors(&mut log, &mut rng),
                    #[cfg(feature = "full")]
                    "serde" => full::serde_of(&mut log, &mut rng, k, n),
                    #[cfg(feature = "full")]
                    "par" => full::pars(&mut log, &mut rng, n),
                    w => panic!("unknown case {w}"),
                }
            }
        }
        "cost" => {
            let mut log = log::Log::create(&get("out", "/dev/null"));
            for k in get("kinds", "list").split(',') {
                cost::costs_of(&mut log, &mut rng, k, num("n", 1000), num("rounds", 4));
            }
        }
        #[cfg(feature = "full")]
        "deep" => {
            let mut log = log::Log::create(&get("out", "/dev/null"));
            let k = get("kind", "list");
            deep::deep_of(&mut log, &mut rng, &k, num("n", 10000), num("rounds", 4), num("debug", 0) != 0);
        }
        "threads" => {
            let mut log = log::Log::create(&get("out", "/dev/null"));
            let k = get("kind", "list");
            let (n, b, drops) = (num("n", 10) as usize, num("runs", 100) as usize, num("drops", 0) != 0);
            match get("what", "explore").as_str() {
                "explore" => sched::threads_of(&mut log, &mut rng, &k, n, b, drops),
                "stress" => sched::stress_of(&mut log, &mut rng, &k, n, b, drops),
                "lockstep" => sched::lockstep(&mut log, n as i64),
                "paths" => {
                    let r = sched::paths(&mut log, &get("edges", ""), num("most", 1 << 40) as usize);
                    println!(
                        "{{\"edges\":{},\"replayed\":{},\"runs\":{},\"followed\":{}}}",
                        r.0, r.1, r.2, r.3
                    );
                }
                w => panic!("unknown {w}"),
            }
        }
        "replay" if get("mode", "") == "cursor" => cursor::run(
            &get("edges", ""),
            &get("out", "/dev/null"),
            &get("kind", "tmap"),
            &get("ptr", "rc"),
            &mut rng,
            num("shapes", 8) as usize,
            num("ranges", 0) != 0,
            num("deep", 5) as usize,
        ),
        "replay" => replay::run(
            &get("mode", "graph"),
            &get("edges", ""),
            &get("out", "/dev/null"),
            &get("kind", "tmap"),
            &get("ptr", "rc"),
            num("cost", 0) != 0,
        ),
        _ => panic!("unknown command {cmd}"),
    }
}
