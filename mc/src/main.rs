#![allow(dead_code)]
#[macro_use]
mod engine;
mod alloc;
mod alpha;
mod bridge;
mod det;
mod env;
mod model;
mod props;
mod sup;

use engine::Tier;
use std::path::PathBuf;
use sup::Ctx;

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut ctx = Ctx {
        id: a.get(2).cloned().unwrap_or_default(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        verif: PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())),
        profile: if cfg!(debug_assertions) { "overflow-checked".into() } else { "wrapping".into() },
    };
    let code = match cmd {
        "check" => {
            let p = props::get(&ctx);
            sup::check(&ctx, &p)
        }
        "exec" => {
            let p = props::get(&ctx);
            sup::exec(&ctx, &p, &PathBuf::from(&a[3]))
        }
        "one" => {
            let p = props::get(&ctx);
            let script: Vec<u32> = a[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            sup::one(&ctx, &p, &PathBuf::from(&a[3]), a[4].parse().unwrap(), &script)
        }
        "replay" => {
            let text = std::fs::read_to_string(&ctx.id).expect("replay file");
            let get = |k: &str| text.split(&format!("\"{}\": \"", k)).nth(1).unwrap().split('"').next().unwrap().to_string();
            ctx.id = get("property");
            ctx.tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
            let p = props::get(&ctx);
            sup::replay_file(&ctx, &p, &text)
        }
        "deep" => props::deep(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: mc check|replay ...");
            2
        }
    };
    std::process::exit(code);
}
