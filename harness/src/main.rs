mod anynode;
mod auto;
mod heap;
mod runner;
mod samplersim;
mod props;
mod util;
mod world;

use crate::runner::Tier;

#[global_allocator]
static A: heap::Counting = heap::Counting;

/// Checks of engines whose cases begin with the engine's life, unless they are aged.
fn aged(id: &str) -> bool {
    ["C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C28", "C30"].contains(&id)
}

macro_rules! table {
    ($($m:ident),* $(,)?) => {
        fn check(id: &str, tier: Tier, seed: u64) -> i32 {
            $( if <props::$m::P as runner::Prop>::ID == id && aged(id) { return runner::check::<runner::Aged<props::$m::P>>(tier, seed); } )*
            $( if id == <props::$m::P as runner::Prop>::ID { return runner::check::<props::$m::P>(tier, seed); } )*
            runner::report(&format!("error: no such property: {id}"));
            2
        }
        fn replay(id: &str, path: &str) -> i32 {
            $( if <props::$m::P as runner::Prop>::ID == id && aged(id) { return runner::replay::<runner::Aged<props::$m::P>>(path); } )*
            $( if id == <props::$m::P as runner::Prop>::ID { return runner::replay::<props::$m::P>(path); } )*
            runner::report(&format!("error: no such property: {id}"));
            2
        }
    };
}

include!("table.rs");

fn main() {
    runner::redirect_stdout();
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        [_, "check", id] => check(id, tier, seed),
        [_, "replay", id, path] => replay(id, path),
        [_, "child", "C29"] => {
            let mut text = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("the case");
            match runner::catching(|| props::c29::child(&text)) {
                Ok(print) => {
                    runner::report(&print);
                    0
                }
                Err(e) => {
                    runner::report(&e);
                    3
                }
            }
        }
        _ => {
            runner::report("usage: vp check ID | vp replay ID FILE");
            2
        }
    };
    std::process::exit(code);
}
