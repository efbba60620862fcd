mod back;
mod common;
mod compile;
mod conc;
mod config;
mod docs;
mod front;
mod lsp;
mod net;
mod plug;
mod proj;
mod refmodel;
use common::*;
use std::time::Duration;

fn probe(prop: &str, input: &str) -> i32 {
    match prop {
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" => match front::check(prop, input) {
            Ok(l) => { println!("{prop}: {input:?}: {l}"); 0 }
            Err(e) => { println!("{prop}: {input:?}: {e}"); 1 }
        },
        "P11" => {
            let (_, load) = back::p11_init();
            match back::p11_doc(input, &mut load(false)) { Ok(l) => { println!("{l}"); 0 } Err(e) => { println!("{e}"); 1 } }
        }
        // crashes and endless loops only
        _ => { let _ = back::ast_of(input); 0 }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    // Capturing backtraces for every rejected document would take most of the time.
    std::env::set_var("RUST_BACKTRACE", "0");
    if std::env::var("BRACKMC_PANICS").is_err() { std::panic::set_hook(Box::new(|_| ())) }
    let code = match args.iter().map(|s| &s[..]).collect::<Vec<_>>()[..] {
        ["probe", prop, file] => probe(prop, &std::fs::read_to_string(file).unwrap()),
        ["check", prop] => {
            let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
            if std::env::var("BRACKMC_SLOTS").is_err() {
                let total = if thorough { 4 * 3600 } else { 800 };
                std::process::exit(guard(prop, &args, Duration::from_secs(60), Duration::from_secs(total)));
            }
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let ctx = Ctx::new(prop, thorough, seed, std::env::var("BRACKMC_SLOTS").ok());
            match prop {
                "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" => front::run(&ctx),
                "P08" => back::p08(&ctx),
                "P09" => back::p09(&ctx),
                "P10" => back::p10(&ctx),
                "P11" => back::p11(&ctx),
                "P12" => lsp::p12(&ctx),
                "P13" => lsp::p13(&ctx),
                "P14" => lsp::p14(&ctx),
                "P15" => lsp::p15(&ctx),
                "P16" => lsp::p16(&ctx),
                "P17" => lsp::p17(&ctx),
                "P18" => proj::p18(&ctx),
                "P19" => proj::p19(&ctx),
                "P20" => proj::p20(&ctx),
                "P21" => proj::p21(&ctx),
                "P23" => proj::p23(&ctx),
                "P24" => compile::p24(&ctx),
                "P25" => conc::p25(&ctx),
                "P22" => config::run(&ctx),
                _ => { eprintln!("no check for {prop}"); 2 }
            }
        }
        _ => { eprintln!("usage: brackmc check <property> | probe <property> <file>"); 2 }
    };
    flush();
    std::process::exit(code);
}
