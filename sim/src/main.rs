//! Deterministic simulation of rustextile with fault injection. See /verif/DESIGN.md.
mod campaign;
mod docgen;
mod exec;
mod html;
mod net;
mod props;
mod rng;
mod seams;
mod spec;

#[global_allocator]
static A: seams::SimAlloc = seams::SimAlloc;

/// Address-space randomisation off: one more source of nondeterminism gone.
fn no_aslr() {
    use std::os::unix::process::CommandExt;
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur < 0 || cur & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("TEXTILE_SIM_EXEC").is_some() { return; }
        if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 { return; }
    }
    if let Ok(me) = std::env::current_exe() {
        let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("TEXTILE_SIM_EXEC", "1").exec();
    }
}

fn main() {
    no_aslr();
    docgen::warm();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).and_then(|v| v.parse().ok()).unwrap_or(d);
    let seed = num("--seed", std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
    let tier = opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let thorough = tier == "thorough";
            let cpus = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8);
            campaign::check(&campaign::Plan {
                runs: num("--runs", campaign::run_count(&prop, thorough)),
                cap_s: num("--cap", if thorough { 3000 } else { 300 }),
                workers: num("--workers", cpus.clamp(1, 16)),
                root: opt("--root").unwrap_or(".".into()).into(),
                prop, seed, tier,
            })
        }
        Some("replay") => campaign::replay(&a[2]),
        Some("determinism") => campaign::determinism(num("--n", 40), seed),
        Some("show") => {
            let i: u64 = a[3].parse().unwrap();
            let run = props::gen(&a[2], props::run_seed(seed, &a[2], i));
            println!("{}", serde_json::to_string_pretty(&run).unwrap());
            let mut e = props::Env::default();
            let v = props::check(&mut e, &run);
            println!("{}\n{:?}", serde_json::to_string_pretty(&v.out).unwrap(), v.viol);
            0
        }
        Some("cover") => { props::cover(num("--n", 40), seed); 0 }
        // renders standard input as is, outside any simulation
        Some("render") => {
            let t = std::io::read_to_string(std::io::stdin()).unwrap();
            println!("{}", rustextile::Textile::default().parse(&t));
            0
        }
        _ => exec::harness_error("usage: textile-sim check ID | replay FILE | determinism | show ID INDEX"),
    };
    std::process::exit(code);
}
