//! The real laby crates inside the simulated abstract machine (run by Miri).
#![allow(clippy::all, warnings)]
#[path = "../../native/src/hist.rs"]
mod hist;
#[path = "../../native/src/props.rs"]
mod props;
#[path = "../../native/src/tree.rs"]
mod tree;

use simrt::rng::{hash_bytes, mix, Rng};
use simrt::run::{Case, Names};
use simrt::{cpu, run};
use std::hash::{BuildHasher, Hasher};
use std::sync::atomic::{AtomicU32, Ordering::*};

#[global_allocator]
static A: simrt::SimAlloc = simrt::SimAlloc;

static PROFILE: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
fn sim_cpuid(leaf: u32, sub: u32) -> [u32; 4] {
    run::CPUIDS.fetch_add(1, Relaxed);
    cpu::cpuid(PROFILE.load(Relaxed), leaf, sub)
}
#[no_mangle]
fn sim_xgetbv(_: u32) -> i64 {
    let p = PROFILE.load(Relaxed);
    if p & cpu::OSXSAVE == 0 {
        simrt::violate!("illegal-instruction", "XGETBV although the OS has not enabled XSAVE");
    }
    cpu::xcr0(p) as i64
}

/// Interpretation is a thousand times slower: keep what is interesting about sizes, not the sizes.
fn shrink(c: &mut Case, r: &mut Rng) {
    if r.chance(4, 5) {
        c.ops.truncate(4 + r.us(12));
    }
    let most = if r.chance(1, 3) { 400 } else { 90 };
    for o in &mut c.ops {
        if o.s.len() > most {
            let mut n = most / 4 + o.s.len() % (most / 4 * 3);
            while !o.s.is_char_boundary(n) {
                n -= 1;
            }
            o.s.truncate(n);
        }
        if c.world == 1 {
            let k = hist::NAMES[o.k as usize];
            if matches!(k, "with_capacity" | "reserve" | "reserve_fit" | "fit" | "str_new") && o.a[1] > 400 {
                o.a[1] %= 400;
            }
        } else if tree::NAMES[o.k as usize] == "buf" && o.a[0] == 0 && o.a[1] > 600 {
            o.a[1] %= 600;
        }
    }
    // threads are the interpreter's
    c.slices.clear();
}

fn one(prop: &str, c: &Case) {
    simrt::new_case();
    simrt::alloc::listed(c.world != 2);
    match c.world {
        1 => hist::run(prop, c),
        _ => tree::run(prop, c, c.get("profile") as u32),
    };
    simrt::alloc::listed(false);
}

fn main() {
    // the interpreter's seed decides this and everything after it
    let e = std::collections::hash_map::RandomState::new().build_hasher().finish();
    let a: Vec<String> = std::env::args().collect();
    let print = a.get(3).map_or(false, |x| x == "print");
    let (prop, cases, profile) = if a[1] == "replay" {
        let text = a[2].replace('|', "\n").replace("\\p", "|").replace("\\b", "\\");
        let (p, boot, h) = simrt::run::decode(&props::Laby, &text).expect("a replay");
        (p, h, boot as u32)
    } else {
        let prop = a[1].clone();
        let n: u64 = a[2].parse().unwrap();
        let mut r = Rng::new(mix(hash_bytes(e, prop.as_bytes())));
        let p = if r.chance(1, 4) { r.next() as u32 & 0x1fffff } else { r.pick(cpu::PRESETS).1 };
        let p = cpu::clamp(p, !0) | 1 << 31;
        let mut v = vec![];
        for _ in 0..n {
            let mut c = props::gen(&prop, &mut r);
            c.set("profile", p as i64);
            shrink(&mut c, &mut r);
            v.push(c);
        }
        (prop, v, p)
    };
    PROFILE.store(profile, Relaxed);
    simrt::set_classes(props::classes(&prop));
    simrt::install_hooks();
    for c in &cases {
        if print {
            println!("@case {}", run::encode(&props::Laby, &prop, profile as i64, std::slice::from_ref(c), "").replace('\\', "\\b").replace('|', "\\p").replace('\n', "|"));
        }
        one(&prop, c);
        if simrt::violation().is_some() {
            run::verdict();
            std::process::exit(11);
        }
        println!("@ran {:x} {:x} {}", c.hash(), run::states(), simrt::foreign() as u8);
    }
    let k: Vec<String> = tree::COUNTERS.iter().enumerate().map(|(i, n)| (n, run::COUNTS[i].load(Relaxed))).filter(|x| x.1 > 0).map(|x| format!("{}={}", x.0, x.1)).collect();
    println!("@counts {} cpuid={}", k.join(" "), run::CPUIDS.load(Relaxed));
}
