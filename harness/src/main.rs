mod conc;
mod ctx;
mod dump;
mod follow;
mod gen;
mod group;
mod lin;
mod live;
mod model;
mod net;
mod pdp;
mod place;
mod reclaim;
mod repl;
mod resp;
mod seq;
mod srv;
mod stats;
mod sys;
mod util;
mod wire;

use ctx::Ctx;
use srv::Bins;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Arc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.into());
    let thorough = args.get(2).map_or_else(|| env("VERIF_TIER", "quick"), Clone::clone) == "thorough";
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let verif = PathBuf::from(env("VERIF_DIR", "/verif"));
    let bindir = std::env::var("VH_BIN").map_or_else(|_| verif.join("target/srv/debug"), PathBuf::from);
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let bins = Bins {
        server: bindir.join("server"),
        pd: bindir.join("pd"),
        shim: std::env::var("VH_SHIM").map_or_else(|_| verif.join("target/clockshim.so"), PathBuf::from),
        scratch: scratch.clone(),
    };
    let ctx = Arc::new(Ctx::new(&prop, thorough, seed, bins, verif));
    util::metronome();
    // a watchdog: no run may last longer than this, and its firing decides nothing
    {
        let ctx = ctx.clone();
        let scratch = scratch.clone();
        let limit = if thorough { 3000 } else { 400 };
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            if !ctx.violated() {
                ctx.inconclusive("the watchdog of the check fired");
            }
            let c = ctx.finish();
            let _ = std::fs::remove_dir_all(&scratch);
            std::process::exit(c);
        });
    }
    let run = {
        let ctx = ctx.clone();
        let prop = prop.clone();
        catch_unwind(AssertUnwindSafe(move || match prop.as_str() {
            "C01" => net::c01(&ctx),
            "C02" => net::c02(&ctx),
            "C03" => net::c03(&ctx),
            "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => seq::untimed(&ctx),
            "C10" | "C11" => seq::timed(&ctx),
            "C12" => reclaim::c12(&ctx),
            "C13" => conc::c13(&ctx),
            "C14" => conc::c14(&ctx),
            "C15" => conc::c15(&ctx),
            "C16" => dump::c16(&ctx),
            "C17" => repl::c17(&ctx),
            "C18" => repl::c18(&ctx),
            "C19" => follow::c19(&ctx),
            "C20" => group::c20(&ctx),
            "C21" => pdp::c21(&ctx),
            "C22" => pdp::c22(&ctx),
            "C23" => place::c23(&ctx),
            "C24" => sys::c24(&ctx),
            "C25" => live::c25(&ctx),
            "C26" => stats::c26(&ctx),
            _ => {
                eprintln!("usage: vh C01..C26 [quick|thorough]");
                std::process::exit(2);
            }
        }))
    };
    if let Err(e) = run {
        let msg = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        if let Some(m) = msg.strip_prefix("SERVER DIED: ") {
            ctx.violation(&format!("a process under test ended by itself: {}", m), &msg);
        } else {
            ctx.inconclusive(&msg);
        }
    }
    let code = ctx.finish();
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
