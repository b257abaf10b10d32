#![allow(dangerous_implicit_autorefs, static_mut_refs, dead_code, invalid_runtime_symbol_definitions)]
mod app;
mod arena;
mod dict;
mod drive;
mod interpose;
mod kernel;
mod net;
mod oracle;
mod plan;
mod profiles;
mod raw;
mod rng;
mod run;
mod world;

/// Addresses are the same in every process of this binary.
fn fixed_addresses() {
    unsafe {
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && (p as libc::c_ulong) & ADDR_NO_RANDOMIZE == 0 && std::env::var("FIXSIM_EXEC").is_err() {
            if libc::personality(p as libc::c_ulong | ADDR_NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let a: Vec<_> = std::env::args_os().skip(1).collect();
                let _ = std::process::Command::new("/proc/self/exe").args(a).env("FIXSIM_EXEC", "1").exec();
            }
        }
    }
}

fn main() {
    fixed_addresses();
    arena::early();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.iter().position(|x| x == "--tier").map(|i| a[i + 1].clone()).or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            drive::check(&a[2], &tier)
        }
        Some("replay") => drive::replay(&a[2], a.iter().any(|x| x == "--quiet")),
        Some("selftest") => drive::selftest(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(20)),
        Some("scan") => {
            let props: Vec<String> = if a[2] == "all" { profiles::PROPS.iter().map(|s| s.to_string()).collect() } else { a[2].split(',').map(|s| s.to_string()).collect() };
            drive::scan(&props, a[3].parse().unwrap(), a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1));
            0
        }
        Some("plan") => {
            println!("{}", serde_json::to_string_pretty(&profiles::generate(&a[2], a[3].parse().unwrap())).unwrap());
            0
        }
        Some("one") => {
            drive::warm();
            let prop = a[2].clone();
            let seed: u64 = a[3].parse().unwrap();
            let how = run::How { verbose: a.iter().any(|x| x == "-v"), cpu: drive::cpus()[0], ..Default::default() };
            let o = run::run_wait(&|| profiles::generate(&prop, seed), &how);
            for l in &o.log {
                println!("{}", l);
            }
            println!("{}", serde_json::to_string_pretty(&run::Outcome { log: vec![], rec: vec![], plan: None, ..o }).unwrap());
            0
        }
        _ => {
            eprintln!("usage: fixsim check <property> [--tier quick|thorough] | replay <file> | selftest [n] | scan <props> <n> [base] | one <property> <seed> [-v]");
            2
        }
    };
    std::process::exit(code);
}
