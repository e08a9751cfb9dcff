//! What each property is searched with and which violations are its own.
use crate::{hist, tree};
use simrt::rng::Rng;
use simrt::run::{Case, Names};

pub struct Laby;

impl Names for Laby {
    fn cfg_names(&self) -> &'static [&'static str] {
        &["place", "grow", "fill", "revoke", "aseed", "threads", "hops", "profile", "solo"]
    }
    fn op_names(&self, world: u8) -> &'static [&'static str] {
        if world == 1 {
            hist::NAMES
        } else {
            tree::NAMES
        }
    }
    fn fault_names(&self) -> &'static [&'static str] {
        &["panic", "refuse"]
    }
}
pub fn gen(prop: &str, r: &mut Rng) -> Case {
    match prop {
        "C05" | "C06" => {
            if r.chance(5, 6) {
                hist::gen(prop, r)
            } else {
                tree::gen(prop, r, 0)
            }
        }
        "C04" => {
            if r.chance(1, 2) {
                hist::gen(prop, r)
            } else {
                tree::gen(prop, r, 0)
            }
        }
        "C02" => {
            let t = *r.pick(&[2, 2, 2, 3, 4]);
            let mut c = tree::gen(prop, r, t);
            c.set("threads", t);
            slices(&mut c, r, t);
            c
        }
        "C03" => {
            let mut c = tree::gen(prop, r, 1);
            c.set("threads", 1);
            c
        }
        _ => tree::gen(prop, r, 0),
    }
}

pub fn classes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["wrong-output", "earlier-output-changed", "wrong-outcome", "unexpected-panic", "invalid-utf8", "crash", "no-progress", "heap-*", "use-after-free", "capacity-lies", "corrupt-after-oom"],
        "C02" => &["wrong-*", "earlier-output-changed", "user-code-order", "unexpected-panic", "shared-changed", "crash", "no-progress", "heap-*", "use-after-free", "bad-free", "layout-mismatch", "capacity-lies", "drop-count", "leak", "runaway"],
        "C03" => &["illegal-instruction", "wrong-output", "wrong-outcome", "crash", "no-progress", "heap-*"],
        "C04" => &["heap-*", "use-after-free", "bad-free", "layout-mismatch", "zero-size-alloc", "leak", "crash", "capacity-lies*", "invalid-utf8*"],
        "C05" => &["wrong-content*", "wrong-string*", "wrong-length*", "wrong-output", "wrong-outcome", "earlier-output-changed", "invalid-utf8*", "capacity-*", "debug-differs", "allocation-although-room", "failure-without-cause", "unexpected-panic", "crash", "shared-changed", "no-progress", "lost-text"],
        "C06" => &["refusal-ignored", "impossible-size-accepted", "lost-text", "corrupt-after-oom", "failure-without-cause", "wrong-content-after-failure", "wrong-string-after-failure", "wrong-length-after-failure", "invalid-utf8-after-failure", "capacity-lies-after-failure", "crash", "heap-*", "use-after-free", "bad-free", "layout-mismatch", "leak", "invalid-utf8", "no-progress"],
        "C07" => &["allocation-*", "too-many-allocations"],
        "C10" => &["user-code-order", "wrong-output", "earlier-output-changed", "wrong-outcome", "drop-count", "crash", "no-progress", "runaway", "rendered-without-render", "unexpected-panic"],
        "C11" => &["user-code-order", "wrong-output", "earlier-output-changed", "wrong-outcome", "crash", "no-progress", "runaway", "unexpected-panic"],
        "C12" => &["wrong-output", "earlier-output-changed", "wrong-outcome", "crash", "heap-*", "use-after-free", "capacity-lies", "no-progress", "unexpected-panic", "invalid-utf8"],
        _ => &["wrong-output", "earlier-output-changed", "wrong-outcome", "crash", "no-progress", "unexpected-panic"],
    }
}

/// A schedule: who runs, for how many instructions.
fn slices(c: &mut Case, r: &mut Rng, threads: i64) {
    let style = r.below(4);
    let n = match style {
        0 => r.below(6),
        1 => 10 + r.below(60),
        2 => 100 + r.below(400),
        _ => r.below(40),
    };
    let max = match style {
        0 => 3000,
        1 => 300,
        2 => 12,
        _ => 1500,
    };
    for i in 0..n {
        let t = if style == 2 { i as i64 % threads } else { r.below(threads as u64) as i64 };
        // a long approach, then dense switching
        let k = if style == 2 && i < threads as u64 { r.log(1500) } else { r.log(max) };
        c.slices.push((t as u16, k as u32));
    }
}
