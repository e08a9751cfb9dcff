//! The real laby crates inside the simulator.
#![allow(clippy::all)]
mod hist;
mod props;
mod tree;

use simrt::cpu;
use simrt::rng::Rng;
use props::Laby;
use simrt::run::{count, Case, System};
use tree::cnt;

#[global_allocator]
static A: simrt::SimAlloc = simrt::SimAlloc;

const FRESH: i64 = 1 << 32;

fn profile(boot: i64) -> u32 {
    boot as u32
}

impl System for Laby {
    fn counters(&self) -> &'static [&'static str] {
        tree::COUNTERS
    }
    fn boot(&self, prop: &str, r: &mut Rng) -> i64 {
        let p = if r.chance(1, 4) { r.next() as u32 & if r.chance(1, 4) { 0x7fffff } else { 0x6fffff } } else { r.pick(cpu::PRESETS).1 };
        let p = cpu::clamp(p, cpu::host()) | 1 << 31;
        let fresh = match prop {
            "C03" => true,
            "C02" => r.chance(2, 3),
            _ => false,
        };
        p as i64 | if fresh { FRESH } else { 0 }
    }
    fn enter(&self, boot: i64) {
        if boot & FRESH != 0 {
            count(cnt::FRESH, 1);
            return;
        }
        // let the library settle on the simulated machine
        simrt::alloc::begin_run(Default::default());
        simrt::step::configure(profile(boot), false, 5_000_000);
        let text = "boot & settle <on> this machine, quietly".repeat(2);
        let r = simrt::step::stepped(|| {
            simrt::sut(|| {
                let mut b = laby::internal::Buffer::new();
                laby::internal::escape(&text, &mut b);
                b.len()
            })
        });
        simrt::step::configure(profile(boot), false, u64::MAX);
        count(cnt::CPUID, simrt::step::cpuids());
        let _ = r;
        simrt::alloc::end_run(false);
        // whatever happens here is judged by the runs that follow
    }
    fn gen(&self, prop: &str, boot: i64, r: &mut Rng) -> Case {
        let mut c = props::gen(prop, r);
        c.set("profile", profile(boot) as i64);
        c
    }
    fn run(&self, prop: &str, case: &Case) -> u64 {
        match case.world {
            1 => hist::run(prop, case),
            _ => tree::run(prop, case, case.get("profile") as u32),
        }
    }
    fn per_epoch(&self, prop: &str) -> u64 {
        match prop {
            "C02" => 2,
            "C03" => 4,
            _ => 400,
        }
    }
    fn epochs(&self, prop: &str, thorough: bool) -> u64 {
        let q = match prop {
            "C02" => 3000,
            "C03" => 2500,
            _ => 1200,
        };
        if thorough {
            q * 15
        } else {
            q
        }
    }
    fn classes(&self, prop: &str) -> &'static [&'static str] {
        props::classes(prop)
    }
    fn control(&self, prop: &str, c: &Case) -> Option<Case> {
        let mut c = c.clone();
        match prop {
            "C02" => {
                c.slices.clear();
                c.set("solo", 1);
                Some(c)
            }
            "C03" => {
                // the machine that has everything
                c.set("profile", (cpu::host() | 1 << 31) as i64);
                Some(c)
            }
            _ => None,
        }
    }
    fn control_boot(&self, prop: &str, boot: i64) -> i64 {
        match prop {
            "C03" => (cpu::host() | 1 << 31) as i64 | boot & FRESH,
            _ => boot,
        }
    }
    fn describe(&self, c: &Case) -> String {
        let m = format!("machine {}\n", cpu::name(c.get("profile") as u32 & 0x7fff_ffff));
        m + &match c.world {
            1 => hist::describe(c),
            _ => tree::describe(c),
        }
    }
}

fn main() {
    std::process::exit(simrt::run::main(&Laby));
}
