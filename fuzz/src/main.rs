//! libFuzzer driving the cases of one check: its input is what the generators draw from.
//! GIFCHECK_ID chooses the check. A failing case is shrunk and written to replays/ as in random runs.
#![no_main]
use gifcheck::alloc::Counting;
use gifcheck::engine::{self, Check};
use std::sync::OnceLock;
use vref::tape::Tape;

#[global_allocator]
static A: Counting = Counting;

fn check() -> &'static Check {
    static C: OnceLock<Check> = OnceLock::new();
    C.get_or_init(|| {
        // after libFuzzer's, which aborts
        engine::install_hook();
        let id = std::env::var("GIFCHECK_ID").expect("GIFCHECK_ID");
        gifcheck::checks::by_id(&id).expect("no such check")
    })
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let c = check();
    let (case, r) = engine::run_case(c, Tape::fuzzed(data), false);
    if let Err(e) = r {
        let (p, detail) = engine::shrink_and_write(c, case.t.into_used(), &e);
        println!("{detail}\nfuzzing found VIOLATION property={} replay={}", c.id, p.display());
        engine::flush();
        std::process::exit(1);
    }
});
