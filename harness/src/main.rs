//! Bounded conformance checks of the real crate (stand-ins for functions outside the proof, and
//! search for a concrete failing input when an obligation fails).
mod blocks;
#[path = "/repo/src/cli/mod.rs"]
#[allow(dead_code)]
mod cli;
mod cliw;
mod ctx;
mod elves;
mod gen;
mod keys;
mod keystore;
mod model;
mod modules;
mod signers;
mod verify;
use std::path::PathBuf;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("cli") {
        use clap::Parser;
        let cli = cli::Cli::parse_from(std::iter::once("ksusig".to_string()).chain(a[2..].iter().cloned()));
        if let Err(e) = cli.execute() {
            eprintln!("Error: {e}");
            std::process::exit(1);
        }
        return;
    }
    if a.len() < 8 {
        eprintln!("usage: conf PROPERTY SEED TIER SECONDS REPLAY SCRATCH MINED");
        std::process::exit(2);
    }
    let mut m = ctx::Mined::default();
    for l in std::fs::read_to_string(&a[7]).unwrap_or_default().lines() {
        let Some((k, v)) = l.split_once(' ') else { continue };
        match k {
            "I" | "i" => {
                if let Ok(x) = v.parse::<u64>() {
                    m.ints.push(x);
                    if k == "I" {
                        m.new_ints.push(x);
                    }
                }
            }
            _ => {
                let s = unhex(v);
                if k == "S" {
                    m.new_strs.push(s.clone());
                }
                m.strs.push(s);
            }
        }
    }
    let mut c = ctx::Ctx::new(&a[1], a[2].parse().unwrap_or(1), a[3] == "thorough", a[4].parse().unwrap_or(60), PathBuf::from(&a[5]), PathBuf::from(&a[6]), m);
    match a[1].as_str() {
        "C01" => blocks::c01(&mut c),
        "C02" => blocks::c02(&mut c),
        "C03" => blocks::c03(&mut c),
        "C04" => blocks::c04(&mut c),
        "C05" => modules::c05(&mut c),
        "C06" => modules::c06(&mut c),
        "C07" => modules::c07(&mut c),
        "C08" => elves::c08(&mut c),
        "C09" => elves::c09(&mut c),
        "C10" => elves::c10(&mut c),
        "C11" => verify::c11(&mut c),
        "C12" => verify::c12(&mut c),
        "C13" => signers::c13(&mut c),
        "C14" => signers::c14(&mut c),
        "C15" => keystore::c15(&mut c),
        "C16" => modules::c16(&mut c),
        _ => std::process::exit(2),
    }
    let mut g = vec![];
    for (i, (n, at)) in c.groups.iter().enumerate() {
        let end = c.groups.get(i + 1).map_or(c.cases, |x| x.1);
        if n != "end" {
            g.push(format!("{n}: {}", end - at));
        }
    }
    println!("DONE {} {}", c.cases, g.join("; "));
}
