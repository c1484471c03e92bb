//! Native driver: evaluates the contracts on the real code (real dependencies, real codegen).
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use vh::gen::*;

fn run_one(c: vh::Contract, s: &mut dyn Src) -> R {
    match catch_unwind(AssertUnwindSafe(|| c(s))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            Err(Stop::Fail(format!("panic in the code under contract: {m}")))
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let reg = vh::registry();
    let find = |n: &str| reg.iter().find(|x| x.0 == n).unwrap_or_else(|| { println!("{{\"error\":\"no contract {n}\"}}"); std::process::exit(3) }).1;
    match a[1].as_str() {
        "list" => for (n, _) in &reg { println!("{n}"); },
        // run NAME exhaustive|sample SECONDS SEED MAXEVALS
        "run" => {
            let name = &a[2];
            let c = find(name);
            let secs: f64 = a[4].parse().unwrap();
            let seed: u64 = a[5].parse().unwrap();
            let maxe: u64 = a.get(6).map(|x| x.parse().unwrap()).unwrap_or(u64::MAX);
            let t0 = Instant::now();
            let lim = Duration::from_secs_f64(secs);
            let (mut evals, mut met, mut done) = (0u64, 0u64, false);
            let mut fail: Option<(String, Vec<u64>)> = None;
            let mut samples: Vec<Vec<u64>> = vec![];
            let ex = a[3] == "exhaustive";
            let mut e = Exhaustive::new();
            let mut k = 0u64;
            loop {
                if evals >= maxe || (evals % 64 == 0 && t0.elapsed() > lim) { break; }
                let (r, tr);
                if ex {
                    e.restart();
                    r = run_one(c, &mut e);
                    tr = if fail.is_none() && (samples.len() < 2 || r.is_err()) { e.trace() } else { vec![] };
                } else {
                    let mut s = Sampler::new(seed.wrapping_mul(1_000_003).wrapping_add(k));
                    k += 1;
                    r = run_one(c, &mut s);
                    tr = std::mem::take(&mut s.trace);
                }
                evals += 1;
                match r {
                    Ok(()) => { met += 1; if samples.len() < 2 { samples.push(tr); } }
                    Err(Stop::Skip) => {}
                    Err(Stop::Fail(m)) => { fail = Some((m, tr)); break; }
                }
                if ex && !e.next() { done = true; break; }
            }
            let tv = |t: &Vec<u64>| format!("[{}]", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            println!("{{\"contract\":{},\"mode\":{},\"evaluations\":{},\"met\":{},\"complete\":{},\"wall_s\":{:.2},\"samples\":[{}],\"fail\":{}}}",
                js(name), js(&a[3]), evals, met, done, t0.elapsed().as_secs_f64(), samples.iter().map(tv).collect::<Vec<_>>().join(","),
                match &fail { None => "null".into(), Some((m, t)) => format!("{{\"message\":{},\"trace\":{}}}", js(m), tv(t)) });
        }
        // replay NAME v,v,v
        "replay" => {
            let c = find(&a[2]);
            let vals = a[3].split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect();
            let mut s = Replay { vals, pos: 0 };
            match run_one(c, &mut s) {
                Ok(()) => println!("{{\"result\":\"holds\"}}"),
                Err(Stop::Skip) => println!("{{\"result\":\"precondition\"}}"),
                Err(Stop::Fail(m)) => { println!("{{\"result\":\"fails\",\"message\":{}}}", js(&m)); std::process::exit(1) }
            }
        }
        _ => std::process::exit(2),
    }
}
