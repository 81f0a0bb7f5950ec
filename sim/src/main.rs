#![feature(alloc_error_hook)]
#![allow(unexpected_cfgs)]
mod env;
mod exact;
mod fpu;
mod plan;
mod prng;
mod runner;
mod s_algebra;
mod s_camera;
mod s_igeom;
mod s_interval;
mod s_life;
mod s_number;
mod s_pure;
mod s_scene;
mod s_shape;
mod s_step;
mod s_total;
mod s_transform;
mod scene;
mod simf;

use plan::Plan;
use runner::{Options, Scenario, Tier};
use std::path::{Path, PathBuf};

#[global_allocator]
static ALLOC: env::SimAlloc = env::SimAlloc;

fn scenarios() -> Vec<Box<dyn Scenario>> {
    vec![Box::new(s_interval::C01), Box::new(s_interval::C02), Box::new(s_step::C03), Box::new(s_igeom::C04), Box::new(s_interval::C05), Box::new(s_scene::C06), Box::new(s_scene::C07), Box::new(s_scene::C08), Box::new(s_scene::C09), Box::new(s_pure::C10), Box::new(s_life::C11), Box::new(s_transform::C12), Box::new(s_shape::C13), Box::new(s_camera::C14), Box::new(s_transform::C15), Box::new(s_camera::C16), Box::new(s_number::C17), Box::new(s_shape::C18), Box::new(s_algebra::C19), Box::new(s_total::C20)]
}
fn find(id: &str) -> Box<dyn Scenario> {
    match scenarios().into_iter().find(|s| s.id() == id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn envnum(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.parse().ok())
}

fn main() {
    env::init_process();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1).copied() {
        Some("check") => {
            let s = find(a[2]);
            let t = tier(a.get(3).copied().unwrap_or("quick"));
            let o = Options {
                seed: envnum("VERIF_SEED").unwrap_or(1),
                tier: t,
                workers: envnum("SIM_WORKERS").unwrap_or(8).max(1),
                root: PathBuf::from(std::env::var("SIM_ROOT").unwrap_or("/verif".into())),
                variant: std::env::var("SIM_VARIANT").unwrap_or_else(|_| "unknown".into()),
                runs: envnum("SIM_RUNS"),
                cap_s: envnum("SIM_CAP_S").unwrap_or(if t == Tier::Quick { 240 } else { 2400 }),
                build_s: std::env::var("SIM_BUILD_S").ok().and_then(|v| v.parse().ok()).unwrap_or(0.0),
            };
            runner::check(&*s, &o)
        }
        Some("worker") => {
            let n = |k: usize| a[k].parse::<u64>().unwrap();
            runner::worker(&*find(a[2]), n(3), tier(a[4]), n(5), n(6), n(7), Path::new(a[8]), n(9));
            0
        }
        Some("exec") | Some("replay") => {
            let text = std::fs::read_to_string(a[2]).unwrap_or_else(|e| {
                eprintln!("{e}");
                std::process::exit(2)
            });
            let (p, want): (Plan, _) = Plan::parse(&text).unwrap_or_else(|e| {
                eprintln!("{e}");
                std::process::exit(2)
            });
            let s = find(&p.property);
            match runner::exec_file(&*s, &p, tier(&std::env::var("VERIF_TIER").unwrap_or_default())) {
                Ok(()) => {
                    println!("OK");
                    0
                }
                Err(v) => {
                    println!("CLASS {}", v.class);
                    println!("DETAIL {}", v.detail.replace('\n', " "));
                    if a[1] == "replay" {
                        match want {
                            Some(w) if w == v => println!("reproduced exactly"),
                            Some(w) => println!("differs from the recorded violation: {} {}", w.class, w.detail),
                            None => {}
                        }
                        println!("VIOLATION property={} replay={}", p.property, a[2]);
                        1
                    } else {
                        0
                    }
                }
            }
        }
        Some("determinism") => {
            let runs = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(200);
            let ok = scenarios().iter().filter(|s| a[2] == "all" || s.id() == a[2]).all(|s| runner::determinism(&**s, envnum("VERIF_SEED").unwrap_or(1), runs));
            if ok {
                0
            } else {
                1
            }
        }
        Some("show") => {
            let s = find(a[2]);
            let p = runner::make_plan(&*s, envnum("VERIF_SEED").unwrap_or(1), a[3].parse().unwrap(), Tier::Quick);
            println!("{}", p.to_text(None));
            let (r, run) = runner::exec_plan(&*s, &p);
            println!("{r:?} checks {} faults {} probes {:?}", run.checks, run.faults.len(), run.probes);
            0
        }
        _ => {
            eprintln!("usage: check|replay|exec|worker|determinism|show");
            2
        }
    };
    std::process::exit(code);
}
