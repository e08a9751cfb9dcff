//! Seeded search: epochs of cases in forked processes, the first failing case, minimisation and
//! replay.
pub use crate::case::{decode, encode, Case, Names, Op};
use crate::rng::{hash_bytes, mix, Rng};
use crate::{alloc, clear_violation, install_hooks, set_viol_page, step, violation, Viol};
use std::io::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

/// What a system under simulation provides.
pub trait System: Names + Sync {
    /// Names of counters, indexable by `count`.
    fn counters(&self) -> &'static [&'static str];
    /// Prepare a fresh process for an epoch (simulated machine, first use).
    fn boot(&self, prop: &str, rng: &mut Rng) -> i64;
    /// Bring the process into the state `boot` chose.
    fn enter(&self, boot: i64);
    fn gen(&self, prop: &str, boot: i64, rng: &mut Rng) -> Case;
    /// Run one case; returns a digest of everything observed.
    fn run(&self, prop: &str, case: &Case) -> u64;
    /// Cases per epoch.
    fn per_epoch(&self, prop: &str) -> u64;
    fn epochs(&self, prop: &str, thorough: bool) -> u64;
    /// Human-readable description of a case.
    fn describe(&self, case: &Case) -> String;
    /// Violation classes that break this property.
    fn classes(&self, prop: &str) -> &'static [&'static str];
    /// The same case without what the property is about (concurrency, the machine): when that
    /// fails as well, the failure is not this property's.
    fn control(&self, prop: &str, case: &Case) -> Option<Case>;
    fn control_boot(&self, prop: &str, boot: i64) -> i64;
}

pub const NCOUNT: usize = 96;
const DISTINCT: usize = 1 << 21;

#[repr(C)]
struct Slot {
    viol: Viol,
    beat: AtomicU64,
    case: AtomicU64,
    digest: AtomicU64,
}
#[repr(C)]
struct Shm {
    slots: [Slot; 64],
    counts: [AtomicU64; NCOUNT],
    maxes: [AtomicU64; NCOUNT],
    evals: AtomicU64,
    distinct_n: AtomicU64,
    states_n: AtomicU64,
    digest: AtomicU64,
    /// lowest failing epoch so far
    best: AtomicU64,
    best_case: AtomicU64,
    harness: AtomicU32,
    cut: AtomicU32,
    foreign: AtomicU64,
    note: [u8; 4096],
    distinct: [AtomicU64; DISTINCT],
    states: [AtomicU64; DISTINCT],
}

/// When to stop starting epochs.
static mut STOP: Option<Instant> = None;

static mut SHM: *const Shm = std::ptr::null();
fn shm() -> &'static Shm {
    unsafe { &*SHM }
}

/// Add to an evidence counter.
pub fn count(i: usize, n: u64) {
    unsafe {
        if !SHM.is_null() && n != 0 {
            shm().counts[i].fetch_add(n, Relaxed);
        }
    }
}
fn insert(t: &[AtomicU64], n: &AtomicU64, h: u64) {
    if n.load(Relaxed) as usize > DISTINCT * 3 / 4 {
        return;
    }
    let h = h | 1;
    let mut i = (h >> 8) as usize % DISTINCT;
    loop {
        match t[i].compare_exchange(0, h, Relaxed, Relaxed) {
            Ok(_) => {
                n.fetch_add(1, Relaxed);
                return;
            }
            Err(x) if x == h => return,
            _ => i = (i + 1) % DISTINCT,
        }
    }
}
/// Note a distinct non-trivial case.
pub fn distinct(h: u64) {
    unsafe {
        if !SHM.is_null() {
            insert(&shm().distinct, &shm().distinct_n, h);
        }
    }
}
/// Note a distinct state or interleaving.
pub fn state(h: u64) {
    unsafe {
        if !SHM.is_null() {
            insert(&shm().states, &shm().states_n, h);
        }
    }
}

fn case_rng(seed: u64, prop: &str, epoch: u64, case: u64) -> Rng {
    Rng::new(mix(hash_bytes(seed, prop.as_bytes()) ^ mix(epoch) ^ mix(case.wrapping_mul(0x1234_5677) + 99)))
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub class: String,
    pub msg: String,
}

/// Fork, run `f` in the child, and report how it ended.
fn in_child(slot: usize, timeout: Duration, f: impl FnOnce()) -> Option<Failure> {
    let sl = &shm().slots[slot];
    unsafe {
        (*(std::ptr::addr_of!(sl.viol) as *mut Viol)).set.store(false, Release);
        sl.case.store(u64::MAX, Relaxed);
        let pid = libc::fork();
        if pid < 0 {
            return Some(Failure { class: "harness".into(), msg: "fork failed".into() });
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            set_viol_page(std::ptr::addr_of!(sl.viol) as *mut Viol);
            f();
            libc::_exit(if sl.viol.set.load(Acquire) { 10 } else { 0 });
        }
        let mut last = (sl.beat.load(Relaxed), Instant::now());
        let mut spins = 0u32;
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                break;
            }
            let b = sl.beat.load(Relaxed);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > timeout {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                set_viol_page(std::ptr::addr_of!(sl.viol) as *mut Viol);
                let v = violation();
                set_viol_page(std::ptr::null_mut());
                let (class, msg) = v.unwrap_or(("no-progress".into(), "the run does not end".into()));
                return Some(Failure { class, msg });
            }
            spins += 1;
            std::thread::sleep(Duration::from_micros(if spins < 40 { 50 } else { 500 }));
        }
        set_viol_page(std::ptr::addr_of!(sl.viol) as *mut Viol);
        let v = violation();
        set_viol_page(std::ptr::null_mut());
        if let Some((class, msg)) = v {
            return Some(Failure { class, msg });
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let name = match s {
                libc::SIGSEGV => "SIGSEGV",
                libc::SIGBUS => "SIGBUS",
                libc::SIGABRT => "SIGABRT",
                libc::SIGILL => "SIGILL",
                libc::SIGFPE => "SIGFPE",
                libc::SIGTRAP => "SIGTRAP",
                libc::SIGKILL => {
                    return Some(Failure { class: "harness".into(), msg: "killed".into() });
                }
                _ => "signal",
            };
            return Some(Failure { class: "crash".into(), msg: format!("the process died of {name}") });
        }
        if libc::WEXITSTATUS(st) != 0 {
            return Some(Failure { class: "harness".into(), msg: format!("exit status {}", libc::WEXITSTATUS(st)) });
        }
        None
    }
}

fn run_one(sys: &dyn System, prop: &str, c: &Case, slot: usize, boot: i64) -> u64 {
    crate::new_case();
    let d = sys.run(prop, c);
    if crate::foreign() {
        shm().foreign.fetch_add(1, Relaxed);
    }
    let sl = &shm().slots[slot];
    sl.beat.fetch_add(1, Relaxed);
    mix(d ^ c.hash() ^ boot as u64)
}

fn epoch_body(sys: &dyn System, prop: &str, seed: u64, epoch: u64, slot: usize, record: bool) {
    let boot = sys.boot(prop, &mut case_rng(seed, prop, epoch, u64::MAX));
    sys.enter(boot);
    let sl = &shm().slots[slot];
    let mut dg = 0u64;
    for i in 0..sys.per_epoch(prop) {
        let c = sys.gen(prop, boot, &mut case_rng(seed, prop, epoch, i));
        sl.case.store(i, Relaxed);
        let d = run_one(sys, prop, &c, slot, boot);
        dg = dg.wrapping_add(mix(d ^ mix(i)));
        if record {
            shm().evals.fetch_add(1, Relaxed);
        }
        if crate::violation_found() {
            return;
        }
    }
    if record {
        shm().digest.fetch_add(mix(dg ^ mix(epoch)), Relaxed);
    }
    sl.digest.store(dg, Relaxed);
}

fn run_history(sys: &dyn System, prop: &str, boot: i64, cases: &[Case], slot: usize, timeout: Duration) -> Option<Failure> {
    in_child(slot, timeout, || {
        sys.enter(boot);
        for (i, c) in cases.iter().enumerate() {
            shm().slots[slot].case.store(i as u64, Relaxed);
            run_one(sys, prop, c, slot, boot);
            if crate::violation_found() {
                return;
            }
        }
    })
}

fn same(a: &Option<Failure>, want: &Failure) -> bool {
    matches!(a, Some(f) if f.class == want.class)
}

struct Shrink<'a> {
    sys: &'a dyn System,
    prop: &'a str,
    want: Failure,
    last: Failure,
    left: u32,
    deadline: Instant,
    timeout: Duration,
}
impl Shrink<'_> {
    fn ok(&mut self, boot: i64, h: &[Case]) -> bool {
        if self.left == 0 || Instant::now() > self.deadline {
            return false;
        }
        self.left -= 1;
        let f = run_history(self.sys, self.prop, boot, h, 63, self.timeout);
        if same(&f, &self.want) {
            let ctl: Option<Vec<Case>> = h.iter().map(|c| self.sys.control(self.prop, c)).collect();
            if let Some(ctl) = ctl {
                if run_history(self.sys, self.prop, self.sys.control_boot(self.prop, boot), &ctl, 63, self.timeout).is_some() {
                    return false;
                }
            }
            self.last = f.unwrap();
            return true;
        }
        false
    }
    /// Delete chunks of a list while the failure persists.
    fn list<T: Clone>(&mut self, cur: &mut Vec<T>, mut test: impl FnMut(&mut Self, &[T]) -> bool) {
        let mut chunk = cur.len().max(1).next_power_of_two();
        while chunk >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let mut t = cur.clone();
                let e = (i + chunk).min(t.len());
                t.drain(i..e);
                if test(self, &t) {
                    *cur = t;
                } else {
                    i += chunk;
                }
                if self.left == 0 {
                    return;
                }
            }
            chunk /= 2;
        }
    }
    fn all(&mut self, boot: i64, mut h: Vec<Case>) -> Vec<Case> {
        // a single case if possible
        if h.len() > 1 {
            let one = vec![h.last().unwrap().clone()];
            if self.ok(boot, &one) {
                h = one;
            } else {
                let mut cur = h.clone();
                self.list(&mut cur, |s, t| !t.is_empty() && s.ok(boot, t));
                h = cur;
            }
        }
        for round in 0..3 {
            let before = h.clone();
            for ci in (0..h.len()).rev() {
                let base = h.clone();
                let with = |c: Case| {
                    let mut t = base.clone();
                    t[ci] = c;
                    t
                };
                let mut c = h[ci].clone();
                let mut slices = c.slices.clone();
                self.list(&mut slices, |s, t| s.ok(boot, &with(Case { slices: t.to_vec(), ..c.clone() })));
                c.slices = slices;
                let mut ops = c.ops.clone();
                self.list(&mut ops, |s, t| s.ok(boot, &with(Case { ops: t.to_vec(), ..c.clone() })));
                c.ops = ops;
                let mut faults = c.faults.clone();
                self.list(&mut faults, |s, t| s.ok(boot, &with(Case { faults: t.to_vec(), ..c.clone() })));
                c.faults = faults;
                for k in 0..c.cfg.len() {
                    for v in [0, 1] {
                        if c.cfg[k].1 != v && c.cfg[k].1 != 0 && c.cfg[k].0 != "profile" {
                            let mut t = c.clone();
                            t.cfg[k].1 = v;
                            if self.ok(boot, &with(t.clone())) {
                                c = t;
                                break;
                            }
                        }
                    }
                }
                for k in 0..c.ops.len() {
                    // shorter text
                    let mut chars: Vec<char> = c.ops[k].s.chars().collect();
                    if !chars.is_empty() {
                        self.list(&mut chars, |s, t| {
                            let mut d = c.clone();
                            d.ops[k].s = t.iter().collect();
                            s.ok(boot, &with(d))
                        });
                        c.ops[k].s = chars.iter().collect();
                        if round == 0 && chars.len() <= 64 {
                            for x in 0..chars.len() {
                                if chars[x] != 'a' {
                                    let mut t = chars.clone();
                                    t[x] = 'a';
                                    let mut d = c.clone();
                                    d.ops[k].s = t.iter().collect();
                                    if self.ok(boot, &with(d.clone())) {
                                        chars = t;
                                        c = d;
                                    }
                                }
                            }
                        }
                    }
                    for x in 0..4 {
                        let v = c.ops[k].a[x];
                        for w in [0, 1, v / 2, v - v.signum()] {
                            if w != c.ops[k].a[x] && w.unsigned_abs() < c.ops[k].a[x].unsigned_abs() {
                                let mut d = c.clone();
                                d.ops[k].a[x] = w;
                                if self.ok(boot, &with(d.clone())) {
                                    c = d;
                                }
                            }
                        }
                    }
                }
                for k in 0..c.slices.len() {
                    let v = c.slices[k].1;
                    for w in [1, v / 2] {
                        if w < c.slices[k].1 && w > 0 {
                            let mut d = c.clone();
                            d.slices[k].1 = w;
                            if self.ok(boot, &with(d.clone())) {
                                c = d;
                            }
                        }
                    }
                }
                h[ci] = c;
            }
            if h == before || self.left == 0 {
                break;
            }
        }
        h
    }
}


fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn disable_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && (p as u64 & ADDR_NO_RANDOMIZE) == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality(p as u64 | ADDR_NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
}

fn sweep(sys: &'static dyn System, prop: &str, seed: u64, workers: u64, from: u64, to: u64, record: bool, timeout: Duration) {
    let mut pids = vec![];
    for w in 0..workers {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut e = from + w;
                while e < to {
                    if shm().best.load(Relaxed) < e {
                        break;
                    }
                    if unsafe { STOP }.is_some_and(|s| Instant::now() >= s) {
                        shm().cut.store(1, Relaxed);
                        break;
                    }
                    if let Some(f) = in_child(w as usize, timeout, || epoch_body(sys, prop, seed, e, w as usize, record)) {
                        if f.class == "harness" {
                            eprintln!("harness: epoch {e}: {}", f.msg);
                            shm().harness.fetch_add(1, Relaxed);
                            break;
                        }
                        let case = shm().slots[w as usize].case.load(Relaxed);
                        if excused(sys, prop, seed, e, case, w as usize, timeout) {
                            shm().foreign.fetch_add(1, Relaxed);
                            e += workers;
                            continue;
                        }
                        let mut b = shm().best.load(Relaxed);
                        while e < b {
                            match shm().best.compare_exchange(b, e, Relaxed, Relaxed) {
                                Ok(_) => {
                                    shm().best_case.store(case, Relaxed);
                                    break;
                                }
                                Err(x) => b = x,
                            }
                        }
                        break;
                    }
                    e += workers;
                }
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    for p in pids {
        unsafe {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
        }
    }
}

/// Whether the control run of a failing epoch fails as well.
fn excused(sys: &dyn System, prop: &str, seed: u64, e: u64, case: u64, slot: usize, timeout: Duration) -> bool {
    if case == u64::MAX {
        return false;
    }
    let boot = sys.boot(prop, &mut case_rng(seed, prop, e, u64::MAX));
    let mut h = vec![];
    for i in 0..=case {
        let c = sys.gen(prop, boot, &mut case_rng(seed, prop, e, i));
        match sys.control(prop, &c) {
            Some(c) => h.push(c),
            None => return false,
        }
    }
    let sl = shm().slots[slot].case.load(Relaxed);
    let r = run_history(sys, prop, sys.control_boot(prop, boot), &h, slot, timeout).is_some();
    shm().slots[slot].case.store(sl, Relaxed);
    r
}

fn reset_shm() {
    let s = shm();
    s.best.store(u64::MAX, Relaxed);
    s.digest.store(0, Relaxed);
}

/// Entry point of a simulation binary.
/// `bin PROP --seed N --tier quick|thorough --out FILE --replay-dir DIR [--workers N] [--epochs N]`
/// or `bin --replay FILE`. Exit 0: held; 1: violation (described in FILE); 2: harness trouble.
pub fn main(sys: &'static dyn System) -> i32 {
    disable_aslr();
    unsafe {
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
        let n = std::mem::size_of::<Shm>();
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM = p as *const Shm;
    }
    reset_shm();
    alloc::init();
    install_hooks();
    step::install();

    let mut args = std::env::args().skip(1);
    let (mut prop, mut seed, mut thorough, mut out, mut dir, mut workers, mut replay) =
        (String::new(), 1u64, false, String::new(), String::new(), 0u64, String::new());
    let (mut epochs, mut from, mut show) = (0u64, 0u64, 0u64);
    let mut selftest = false;
    let mut timeout = Duration::from_secs(60);
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_default();
        match a.as_str() {
            "--seed" => seed = v().parse().unwrap_or(1),
            "--tier" => thorough = v() == "thorough",
            "--out" => out = v(),
            "--replay-dir" => dir = v(),
            "--budget" => {
                let s: u64 = v().parse().unwrap();
                unsafe { STOP = Some(Instant::now() + Duration::from_secs(s)) }
            }
            "--timeout" => timeout = Duration::from_secs(v().parse().unwrap()),
            "--workers" => workers = v().parse().unwrap(),
            "--epochs" => epochs = v().parse().unwrap(),
            "--from" => from = v().parse().unwrap(),
            "--replay" => replay = v(),
            "--show" => show = v().parse().unwrap(),
            "--selftest" => selftest = true,
            _ => prop = a,
        }
    }
    if workers == 0 {
        workers = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 32);
    }
    if !prop.is_empty() {
        crate::set_classes(sys.classes(&prop));
    }

    if !replay.is_empty() {
        let text = std::fs::read_to_string(&replay).expect("replay file");
        let (p, boot, h) = decode(sys, &text).expect("replay file format");
        crate::set_classes(sys.classes(&p));
        for c in &h {
            println!("{}", sys.describe(c));
        }
        return match run_history(sys, &p, boot, &h, 0, timeout) {
            None => {
                println!("no violation");
                0
            }
            Some(f) => {
                println!("{}: {}", f.class, f.msg);
                if f.class == "harness" {
                    2
                } else {
                    1
                }
            }
        };
    }

    let total = if epochs > 0 { epochs } else { sys.epochs(&prop, thorough) };
    if show > 0 {
        for e in from..from + show {
            let boot = sys.boot(&prop, &mut case_rng(seed, &prop, e, u64::MAX));
            let c = sys.gen(&prop, boot, &mut case_rng(seed, &prop, e, 0));
            println!("{}", encode(sys, &prop, boot, &[c.clone()], ""));
            println!("{}", sys.describe(&c));
        }
        return 0;
    }

    if selftest {
        // same seeds, different worker counts: identical digests
        let mut ds = vec![];
        for w in [workers, 1.max(workers / 2 - 1), workers] {
            reset_shm();
            sweep(sys, &prop, seed, w, 0, total, true, timeout);
            ds.push(shm().digest.load(Relaxed));
            println!("workers {w}: digest {:016x} best {}", shm().digest.load(Relaxed), shm().best.load(Relaxed) as i64);
        }
        return if ds.iter().all(|d| *d == ds[0]) { 0 } else { 2 };
    }

    let t0 = Instant::now();
    // a sample of epochs first, so that the digest of the whole can be compared against a repeat
    let sample = (total / 16).clamp(1, 64).min(total);
    sweep(sys, &prop, seed, workers, from, from + sample, true, timeout);
    let d1 = shm().digest.load(Relaxed);
    if shm().best.load(Relaxed) == u64::MAX {
        sweep(sys, &prop, seed, workers, from + sample, from + total, true, timeout);
    }
    let digest = shm().digest.load(Relaxed);
    let search_s = t0.elapsed().as_secs_f64();
    let evals = shm().evals.load(Relaxed);

    let best = shm().best.load(Relaxed);
    let mut viol = String::from("null");
    let mut code = 0;
    let mut repeat_same = true;
    if best != u64::MAX {
        // reproduce in a fresh process, then minimise
        let k = shm().best_case.load(Relaxed);
        let boot = sys.boot(&prop, &mut case_rng(seed, &prop, best, u64::MAX));
        let upto = if k == u64::MAX { 0 } else { k + 1 };
        let h: Vec<Case> = (0..upto).map(|i| sys.gen(&prop, boot, &mut case_rng(seed, &prop, best, i))).collect();
        let mut first = run_history(sys, &prop, boot, &h, 63, timeout);
        for _ in 0..2 {
            if first.is_none() {
                first = run_history(sys, &prop, boot, &h, 63, timeout * 2);
            }
        }
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}.replay");
        match first {
            None => {
                // keep the whole epoch as the replay
                std::fs::write(&path, encode(sys, &prop, boot, &h, &format!("seed {seed} epoch {best}\nunminimised\n"))).unwrap();
                viol = format!(
                    "{{\"class\":\"unreproduced\",\"msg\":\"failed in the sweep, not when repeated\",\"replay\":{},\"epoch\":{best},\"case\":{k}}}",
                    json_str(&path)
                );
                code = 3;
            }
            Some(f) if f.class == "harness" => {
                eprintln!("harness: {}", f.msg);
                code = 2;
            }
            Some(f) => {
                let slow = f.class == "no-progress";
                let mut s = Shrink {
                    sys,
                    prop: &prop,
                    want: f.clone(),
                    last: f.clone(),
                    left: if slow { 150 } else { 3000 },
                    deadline: Instant::now() + Duration::from_secs(90),
                    timeout: Duration::from_secs(if slow { 2 } else { 10 }),
                };
                let m = s.all(boot, h);
                let f = s.last.clone();
                let head = format!(
                    "seed {seed} epoch {best} case {k}\nviolation {}: {}\n",
                    f.class,
                    f.msg.replace('\n', " ")
                );
                let mut text = encode(sys, &prop, boot, &m, &head);
                for c in &m {
                    for l in sys.describe(c).lines() {
                        text += &format!("# {l}\n");
                    }
                }
                std::fs::write(&path, text).unwrap();
                let again = run_history(sys, &prop, boot, &m, 63, timeout);
                viol = format!(
                    "{{\"class\":{},\"msg\":{},\"replay\":{},\"epoch\":{best},\"case\":{k},\"replayed\":{},\"ops\":{},\"faults\":{},\"slices\":{}}}",
                    json_str(&f.class),
                    json_str(&f.msg),
                    json_str(&path),
                    same(&again, &f),
                    m.iter().map(|c| c.ops.len()).sum::<usize>(),
                    m.iter().map(|c| c.faults.len()).sum::<usize>(),
                    m.iter().map(|c| c.slices.len()).sum::<usize>(),
                );
                code = 1;
            }
        }
    } else {
        unsafe { STOP = None };
        // the sample once more, on another number of workers: the digests must agree
        reset_shm();
        let ev = shm().evals.load(Relaxed);
        let c0: Vec<u64> = shm().counts.iter().map(|c| c.load(Relaxed)).collect();
        sweep(sys, &prop, seed, (workers / 2).max(1) + 1, from, from + sample, true, timeout);
        repeat_same = shm().digest.load(Relaxed) == d1 || shm().cut.load(Relaxed) != 0;
        shm().evals.store(ev, Relaxed);
        for (c, v) in shm().counts.iter().zip(c0) {
            c.store(v, Relaxed);
        }
    }
    if code == 0 && shm().harness.load(Relaxed) != 0 {
        code = 2;
    }
    clear_violation();

    let mut samples = String::new();
    for e in [0u64, 1, 2] {
        if e < total {
            let boot = sys.boot(&prop, &mut case_rng(seed, &prop, from + e, u64::MAX));
            let c = sys.gen(&prop, boot, &mut case_rng(seed, &prop, from + e, 0));
            if !samples.is_empty() {
                samples.push(',');
            }
            let d = sys.describe(&c);
            samples += &json_str(&d.chars().take(1500).collect::<String>());
        }
    }
    let mut counts = String::new();
    for (i, n) in sys.counters().iter().enumerate() {
        let v = shm().counts[i].load(Relaxed);
        if i > 0 {
            counts.push(',');
        }
        counts += &format!("{}:{v}", json_str(n));
    }
    let j = format!(
        "{{\"property\":{},\"seed\":{seed},\"epochs\":{total},\"evaluations\":{evals},\"distinct\":{},\"states\":{},\"search_s\":{search_s:.3},\"workers\":{workers},\"digest\":\"{digest:016x}\",\"repeat_identical\":{repeat_same},\"sample_epochs\":{sample},\"cut_short\":{},\"foreign\":{},\"host\":\"{:#x}\",\"counts\":{{{counts}}},\"samples\":[{samples}],\"violation\":{viol}}}\n",
        json_str(&prop),
        shm().distinct_n.load(Relaxed),
        shm().states_n.load(Relaxed),
        shm().cut.load(Relaxed) != 0,
        shm().foreign.load(Relaxed),
        crate::cpu::host(),
    );
    if out.is_empty() {
        print!("{j}");
    } else {
        std::fs::File::create(&out).and_then(|mut f| f.write_all(j.as_bytes())).expect("write result");
    }
    code
}
