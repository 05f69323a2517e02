#[macro_use]
mod core;
mod algos;
mod engine;
mod extra;
mod gen;
mod hier;
mod mpg;
mod pg;
mod secmap;
mod views;
use engine::*;
use std::time::{Duration, Instant};

fn suites() -> Vec<Suite> {
    let mut v = vec![];
    let mut s = |prop, name, f, random, exhaustive, bound| {
        v.push(Suite { prop, name, bound, f, random, exhaustive })
    };
    s("G01", "pg_lifecycle", pg::lifecycle as fn(&mut Ctx) -> R, 60_000, 0, "");
    s("G01", "pg_exh", pg::exh_all, 0, 400_000, "");
    s("G02", "pg_links", pg::links, 60_000, 0, "");
    s("G03", "pg_resize", pg::resize, 60_000, 0, "");
    s("G07", "pg_limits", pg::limits, 60, 0, "");
    s("G07", "pg_limits_u8", pg::limits_u8, 2000, 0, "");
    s("G04", "pg_renumber", pg::renumber, 60_000, 0, "");
    s("G06", "pg_insert", pg::insert, 20_000, 0, "");
    s("M01", "mpg_links", mpg::links, 60_000, 0, "");
    s("M01", "mpg_from_pg", mpg::from_pg, 30_000, 0, "");
    s("M02", "mpg_structure", mpg::structure, 60_000, 0, "");
    s("M02", "mpg_exh", mpg::exh, 0, 400_000, "");
    s("H01", "hier_forest", hier::forest, 60_000, 0, "");
    s("H02", "hier_moves", hier::moves, 60_000, 0, "");
    s("H02", "hier_exh", hier::exh, 0, 400_000, "");
    s("S01", "map_dense", secmap::dense, 60_000, 0, "");
    s("S01", "map_bits", secmap::bits, 30_000, 0, "");
    s("S01", "map_hashset", secmap::hashset, 30_000, 0, "");
    s("S02", "weights_pg", secmap::follow_pg, 60_000, 0, "");
    s("S02", "weights_mpg", secmap::follow_mpg, 60_000, 0, "");
    s("V01", "view_filter", views::p_filtered, 20_000, 0, "");
    s("V01", "view_filter_multi", views::m_filtered, 20_000, 0, "");
    s("V02", "view_region", views::p_regions, 20_000, 0, "");
    s("V02", "view_region_multi", views::m_regions, 20_000, 0, "");
    s("V03", "view_subgraph", views::p_subgraphs, 30_000, 0, "");
    s("V03", "view_subgraph_multi", views::m_subgraphs, 30_000, 0, "");
    s("V03", "view_copy", views::p_copies, 30_000, 0, "");
    s("V03", "view_copy_multi", views::m_copies, 30_000, 0, "");
    s("V04", "boundary_order", views::p_ordering, 40_000, 0, "");
    s("V04", "boundary_order_multi", views::m_ordering, 40_000, 0, "");
    s("A01", "toposort", algos::topo_p, 40_000, 0, "");
    s("A01", "toposort_multi", algos::topo_m, 40_000, 0, "");
    s("A02", "postorder", algos::post, 60_000, 0, "");
    s("A03", "dominators", algos::doms, 60_000, 0, "");
    s("A04", "lca", algos::lcas, 60_000, 0, "");
    s("A05", "convex", algos::convex_p, 30_000, 0, "");
    s("A05", "convex_multi", algos::convex_m, 30_000, 0, "");
    s("A06", "dyn_check", algos::dyn_check_p, 30_000, 0, "");
    s("A06", "dyn_check_multi", algos::dyn_check_m, 30_000, 0, "");
    s("I01", "indices", extra::indices, 15_000, 0, "");
    s("I01", "indices_u8", extra::indices_u8, 0, 400, "");
    s("G05", "queries", extra::queries, 40_000, 0, "");
    s("G05", "queries_multi", extra::queries_multi, 40_000, 0, "");
    s("C01", "serde_pg", extra::serde_pg, 30_000, 0, "");
    s("C01", "serde_mpg", extra::serde_mpg, 30_000, 0, "");
    s("C01", "serde_hier", extra::serde_hier, 30_000, 0, "");
    s("C02", "petgraph", extra::petgraph_p, 20_000, 0, "");
    s("C02", "petgraph_multi", extra::petgraph_m, 20_000, 0, "");
    v
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let all = suites();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = arg(&args, "--prop");
            let only = arg(&args, "--suite");
            let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale: f64 = arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let budget: u64 = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(120);
            let work = arg(&args, "--work").unwrap_or_else(|| "/tmp/pgcheck".into());
            let keep = args.iter().any(|a| a == "--keep-going");
            let _ = std::fs::create_dir_all(&work);
            let sel: Vec<&Suite> = all
                .iter()
                .filter(|s| prop.as_ref().map_or(true, |p| p == s.prop))
                .filter(|s| only.as_ref().map_or(true, |p| p == s.name))
                .collect();
            let start = Instant::now();
            let mut reports = vec![];
            let mut failure = None;
            let n = sel.len() as u64;
            for (i, s) in sel.iter().enumerate() {
                let left = budget.saturating_sub(start.elapsed().as_secs());
                let share = (left / (n - i as u64)).max(2);
                let t = Instant::now();
                let (rep, f) =
                    run_suite(s, seed, scale, Instant::now() + Duration::from_secs(share), &work);
                reports.push(serde_json::json!({
                    "suite": rep.name, "bound": rep.bound, "random_cases": rep.random_cases,
                    "exhaustive_cases": rep.exhaustive_cases, "exhausted": rep.exhausted,
                    "clauses": rep.clauses, "labels": rep.labels, "wall_s": t.elapsed().as_secs_f64(),
                }));
                if keep {
                    eprintln!("{} {}: {} rand, {} exh{}, {} clauses, {:.1}s {}", s.prop, s.name, rep.random_cases, rep.exhaustive_cases, if rep.exhausted {" (all)"} else {""}, rep.clauses, t.elapsed().as_secs_f64(), if f.is_some() {"FAIL"} else {"ok"});
                }
                if let Some(f) = f {
                    let j = serde_json::json!({
                        "property": s.prop, "suite": f.suite, "exhaustive": f.exhaustive,
                        "choices": f.choices, "trace": f.trace, "message": f.message,
                    });
                    if keep {
                        eprintln!("   {}\n   trace: {:#?}", f.message, f.trace);
                    }
                    failure = Some(j);
                    if !keep {
                        break;
                    }
                }
            }
            let rep = serde_json::json!({"suites": reports, "wall_s": start.elapsed().as_secs_f64()});
            std::fs::write(format!("{work}/report.json"), rep.to_string()).unwrap();
            if let Some(f) = failure {
                std::fs::write(format!("{work}/failure.json"), serde_json::to_string_pretty(&f).unwrap()).unwrap();
                std::process::exit(1);
            }
        }
        Some("replay") => {
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let s = all.iter().find(|s| s.name == j["suite"].as_str().unwrap()).expect("suite");
            let (r, trace) = if let Some(seed) = j["seed"].as_u64() {
                let (r, t, _) = replay_seed(s, seed);
                (r, t)
            } else {
                let ch: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
                replay(s, ch, j["exhaustive"].as_bool().unwrap_or(false))
            };
            for t in &trace {
                println!("  {t}");
            }
            match r {
                Ok(()) => println!("contract holds on this input"),
                Err(m) => {
                    println!("CONTRACT VIOLATED: {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("list") => {
            for s in &all {
                println!("{} {}", s.prop, s.name);
            }
        }
        _ => {
            eprintln!("usage: pgcheck run|replay|list");
            std::process::exit(2);
        }
    }
}
