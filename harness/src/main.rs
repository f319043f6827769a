//! Bounded stand-in: runs the real lang_pt against references written from the property texts.
mod gen;
mod gram;
mod lexs;
mod misc;
mod parse;
mod util;
mod watch;
use std::io::Write;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").map_or(false, |t| t == "thorough");
    let only: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    let out = get("--out").expect("--out");
    let trace = get("--trace").map(|p| std::fs::File::create(p).unwrap());
    let secs: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(60);
    quiet_panics();
    let out2 = out.clone();
    let prop2 = prop.clone();
    watch::start(std::time::Duration::from_secs(10), move |c| {
        let mut f = std::fs::File::create(&out2).unwrap();
        writeln!(
            f,
            "{{\"prop\":{},\"evaluations\":0,\"distinct\":0,\"samples\":[],\"known\":[],\"violations\":[{{\"case\":{},\"what\":\"did not terminate within 10 s\"}}]}}",
            esc(&prop2),
            c
        )
        .unwrap();
    });
    let h = std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(move || {
            let mut run = Run {
                seed,
                thorough,
                only,
                trace,
                evals: 0,
                seen: Default::default(),
                nontrivial: 0,
                samples: vec![],
                violations: vec![],
                case: 0,
                known: vec![],
                budget: std::time::Duration::from_secs(secs),
                t0: std::time::Instant::now(),
            };
            match prop.as_str() {
                "C01" => lexs::c01(&mut run),
                "C02" => lexs::c02(&mut run),
                "C03" => misc::c03(&mut run),
                "C04" => lexs::c04(&mut run),
                "C05" => parse::c05(&mut run),
                "C06" => parse::c06(&mut run),
                "C07" => parse::c07(&mut run),
                "C08" => parse::c08(&mut run),
                "C09" => parse::c09(&mut run),
                "C10" => parse::c10(&mut run),
                "C11" => misc::c11(&mut run),
                "C12" => parse::c12(&mut run),
                "C13" => {
                    misc::c13(&mut run);
                    if !run.done() {
                        parse::c13_switch(&mut run)
                    }
                }
                "C14" => misc::c14(&mut run),
                "C15" => parse::c15(&mut run),
                "C16" => parse::c16(&mut run),
                "C17" => parse::c17(&mut run),
                "C18" => parse::c18(&mut run),
                "C19" => misc::c19(&mut run),
                p => panic!("unknown property {}", p),
            }
            let v: Vec<String> = run.violations.iter().map(|(c, s)| format!("{{\"case\":{},\"what\":{}}}", c, esc(s))).collect();
            let s: Vec<String> = run.samples.iter().map(|s| esc(s)).collect();
            let k: Vec<String> = run.known.iter().map(|(n, b)| format!("{{\"name\":{},\"still\":{}}}", esc(n), b)).collect();
            let mut f = std::fs::File::create(&out).unwrap();
            writeln!(
                f,
                "{{\"prop\":{},\"evaluations\":{},\"distinct\":{},\"cases\":{},\"secs\":{:.1},\"samples\":[{}],\"known\":[{}],\"violations\":[{}]}}",
                esc(&prop),
                run.evals,
                run.nontrivial,
                run.case,
                run.t0.elapsed().as_secs_f64(),
                s.join(","),
                k.join(","),
                v.join(",")
            )
            .unwrap();
        })
        .unwrap();
    h.join().unwrap();
    std::process::exit(0);
}
