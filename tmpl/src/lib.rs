//! Generated templates inside the simulator: real macros, real expansion, real rendering.
#![allow(clippy::all)]
pub mod model;
pub mod probe;

use laby::internal::Buffer;
use model::*;
use probe::*;
use simrt::rng::{hash_bytes, mix, Rng};
use simrt::run::{count, Case, Names, Op, System};
use simrt::{outside, sut, violate, Caught};
use std::cell::RefCell;

pub type Task = std::pin::Pin<Box<dyn std::future::Future<Output = Option<String>> + Send>>;
/// Writes into a buffer at once, or is a task.
pub enum Fun {
    Run(fn(&mut Buffer, u8) -> Option<String>),
    Task(fn(u8) -> Task),
}
pub struct Entry {
    pub name: &'static str,
    pub ast: &'static str,
    pub fun: Fun,
}

mod cnt {
    pub const ROOTS: usize = 0;
    pub const PANIC_E: usize = 1;
    pub const EVENTS: usize = 6;
    pub const ABANDONED: usize = 7;
    pub const STRINGS: usize = 8;
    pub const REFUSING: usize = 9;
    pub const BYTES: usize = 10;
    pub const AFTER: usize = 11;
    pub const MOVED: usize = 12;
    pub const REQ: usize = 13;
    pub const PANIC_A: usize = 14;
    pub const SUSPENDED: usize = 15;
    pub const CANCELLED: usize = 16;
    pub const UNSTARTED: usize = 17;
    pub const LEFT: usize = 18;
    pub const SWITCHES: usize = 19;
}
const COUNTERS: &[&str] = &[
    "templates_run",
    "panics_in_evaluation",
    "panics_at_render",
    "panics_half_way_through_a_value",
    "panics_in_formatting",
    "panics_in_an_iterator",
    "user_code_entries",
    "templates_abandoned",
    "rendered_to_string",
    "runs_with_every_allocation_refused",
    "output_bytes",
    "renders_after_a_caught_panic",
    "growths_that_moved",
    "allocator_requests",
    "panics_when_polled",
    "suspensions",
    "tasks_dropped_while_suspended",
    "tasks_dropped_before_the_first_poll",
    "functions_left_early",
    "switches_between_tasks",
];

/// How a task ended.
#[derive(Debug, PartialEq)]
enum End {
    Done(Option<String>),
    Caught(Caught),
    Dropped,
}

impl Tmpl {
    /// Several tasks, each constructing and rendering a template, on one simulated executor.
    fn tasks(&self, case: &Case) -> u64 {
        let values = vals(case);
        simrt::alloc::begin_run(simrt::alloc::AllocCfg {
            place: case.get("place") as u8,
            grow: case.get("grow") as u8,
            fill: case.get("fill") as u8,
            seed: case.get("aseed") as u64,
            ..Default::default()
        });
        struct T {
            prog: std::rc::Rc<Prog>,
            name: &'static str,
            index: usize,
            mode: u8,
            real: Real,
            fut: Option<Task>,
            end: Option<End>,
            polls: u64,
            cancel: Option<u64>,
        }
        let mut ts: Vec<T> = vec![];
        for (t, o) in case.ops.iter().filter(|o| o.k == 0).enumerate() {
            let (index, prog) = self.prog(o.a[0]);
            let Fun::Task(start) = self.progs[index].fun else { continue };
            let mode = if prog.multi { 1 } else { o.a[1].clamp(0, 2) as u8 };
            let of = |k: u16| case.faults.iter().filter(move |f| f.0 == k && f.2 == t as i64).map(|f| f.1);
            let real = Real { panics: of(0).collect(), vals: of_task(&values, t), ..Real::default() };
            let fut = sut(|| start(mode)).ok();
            let cancel = of(1).map(|p| p.max(0) as u64).min();
            count(cnt::ROOTS, 1);
            ts.push(T { prog, name: self.progs[index].name, index, mode, real, fut, end: None, polls: 0, cancel });
        }
        let swap = |t: &mut T| REAL.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut t.real));
        let mut order = 7u64;
        let mut last = usize::MAX;
        let mut steps = case.ops.iter().filter(|o| o.k == 2).map(|o| o.a[0]);
        let mut round = 0usize;
        let mut left = 20_000;
        while ts.iter().any(|t| t.end.is_none()) && !simrt::violated() {
            let open: Vec<usize> = (0..ts.len()).filter(|i| ts[*i].end.is_none()).collect();
            // as the schedule says, in turn when it says nothing more
            let i = match steps.next() {
                Some(s) => s.rem_euclid(ts.len() as i64) as usize,
                None => {
                    round += 1;
                    open[round % open.len()]
                }
            };
            if ts[i].end.is_some() {
                continue;
            }
            let t = &mut ts[i];
            let f = &mut t.fut;
            if last != i {
                count(cnt::SWITCHES, 1);
                last = i;
            }
            order = mix(order ^ i as u64);
            if t.cancel == Some(t.polls) || f.is_none() {
                swap(t);
                let r = sut(|| drop(t.fut.take()));
                swap(t);
                count(if t.polls == 0 { cnt::UNSTARTED } else { cnt::CANCELLED }, 1);
                t.end = Some(match r {
                    Ok(()) => End::Dropped,
                    Err(e) => End::Caught(e),
                });
                continue;
            }
            t.polls += 1;
            left -= 1;
            if left == 0 {
                violate!("no-progress", "{}: not done after {} polls", t.name, t.polls);
                break;
            }
            swap(t);
            let f = t.fut.as_mut().unwrap();
            let r = sut(|| f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())));
            let r = match r {
                Ok(std::task::Poll::Pending) => None,
                Ok(std::task::Poll::Ready(x)) => Some(End::Done(x)),
                Err(e) => Some(End::Caught(e)),
            };
            if r.is_some() {
                // a finished task holds nothing any more
                if let Err(e) = sut(|| drop(t.fut.take())) {
                    violate!("unexpected-panic", "{}: dropping a finished task failed: {e:?}", t.name);
                }
            }
            swap(t);
            t.end = r;
        }
        let mut digest = order;
        for t in &mut ts {
            if simrt::violated() {
                break;
            }
            let name = t.name;
            let panics = t.real.panics.clone();
            let vals = t.real.vals.clone();
            let mut m = Model::new(&vals, &panics, &t.real.log, &t.prog);
            m.polls = t.cancel;
            let want = m.all(&t.prog, t.mode != 2);
            count(cnt::SUSPENDED, m.suspended);
            count(cnt::EVENTS, t.real.log.len() as u64);
            if let Err(Stop(n)) = want {
                match n {
                    EXIT => count(cnt::LEFT, 1),
                    CANCEL => {}
                    n => count(cnt::PANIC_E + [0, 1, 2, 3, 4, 0, 8][m.log[n as usize - 1].0 as usize], 1),
                }
            }
            let say = |e: Option<&Ev>| match e {
                Some(e) => format!("{} of hole {} at index {}", KINDS[e.0 as usize], e.1, e.2),
                None => "nothing".into(),
            };
            if t.real.log != m.log {
                let i = t.real.log.iter().zip(&m.log).position(|(a, b)| a != b).unwrap_or(t.real.log.len().min(m.log.len()));
                violate!("user-code-order", "{name}: entry {i} into user code should be {}, was {}", say(m.log.get(i)), say(t.real.log.get(i)));
            }
            let end = t.end.take().unwrap();
            let ok = match (&want, &end) {
                (Ok(()), End::Done(Some(_))) => true,
                (Err(Stop(EXIT)), End::Done(None)) => true,
                (Err(Stop(CANCEL)), End::Dropped) => true,
                (Err(Stop(n)), End::Caught(Caught::Injected(k))) => *n == *k as i64,
                _ => false,
            };
            if !ok {
                let how = match &end {
                    End::Done(Some(_)) => "a document".to_string(),
                    End::Done(None) => "the function left early".into(),
                    x => format!("{x:?}"),
                };
                violate!("wrong-outcome", "{name}: expected {want:?}, got {how}");
            }
            if let End::Done(Some(s)) = end {
                let doc = if t.mode == 2 { "" } else { &m.out[..] };
                if ok && s != doc {
                    let (a, b) = (s.as_bytes(), doc.as_bytes());
                    let i = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
                    let at = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 40).min(v.len())]).into_owned();
                    violate!("wrong-output", "{name}: at byte {i} the output reads {:?} instead of {:?}", at(a), at(b));
                }
                count(cnt::BYTES, s.len() as u64);
                digest = hash_bytes(digest, s.as_bytes());
                drop(s);
            }
            if let Some((id, (a, b))) = t.real.live.iter().find(|x| x.1 .0 != x.1 .1) {
                violate!("drop-count", "{name}: values of hole {id}: {a} were made, {b} dropped");
            }
            if let Some(id) = t.real.double {
                violate!("drop-count", "{name}: a value of hole {id} was dropped twice");
            }
            digest = mix(digest ^ t.real.log.len() as u64);
            order = mix(order ^ t.index as u64 ^ (m.suspended) << 32);
        }
        for t in &mut ts {
            swap(t);
            let _ = sut(|| drop(t.fut.take()));
            swap(t);
        }
        simrt::run::state(order);
        if !ts.is_empty() {
            simrt::run::distinct(case.hash());
        }
        drop(ts);
        let st = simrt::alloc::end_run(true);
        count(cnt::MOVED, st.moved);
        count(cnt::REQ, st.requests);
        digest
    }
}

struct Tmpl {
    progs: Vec<&'static Entry>,
}
thread_local! {
    static PARSED: RefCell<Vec<Option<std::rc::Rc<Prog>>>> = RefCell::new(vec![]);
}

impl Tmpl {
    fn prog(&self, i: i64) -> (usize, std::rc::Rc<Prog>) {
        let i = i.rem_euclid(self.progs.len() as i64) as usize;
        PARSED.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                p.resize_with(self.progs.len(), || None);
            }
            (i, p[i].get_or_insert_with(|| std::rc::Rc::new(prog(self.progs[i].ast))).clone())
        })
    }
}

fn vals(case: &Case) -> Vec<Val> {
    let mut v: Vec<Val> = vec![];
    for o in case.ops.iter().filter(|o| o.k == 1) {
        let i = o.a[0].clamp(0, 4095) as usize;
        if v.len() <= i {
            v.resize(i + 1, Val::default());
        }
        v[i] = Val { n: o.a[1] as u64, s: o.s.clone() };
    }
    v
}

fn hostile(r: &mut Rng) -> String {
    let n = match if r.chance(1, 400) { 8 } else { r.below(8) } {
        8 => *r.pick(&[300, 1000, 4096, 5000, 16384, 65535, 65536, 70000]),
        0 => 0,
        1..=4 => r.us(12),
        5 => *r.pick(&[15, 16, 17, 31, 32, 33]),
        6 => r.us(40),
        _ => r.us(120),
    };
    let d = *r.pick(&[5u64, 30, 80]);
    let mut s = String::new();
    while s.len() < n {
        s.push(if r.chance(d, 100) {
            *r.pick(&['&', '"', '\'', '<', '>'])
        } else {
            match r.below(12) {
                0 => *r.pick(&['é', '漢', '😀', '\u{0}', '\n', ' ', '=', '/', '\u{80}', '\u{7ff}', '\u{ffff}', '\u{10ffff}']),
                _ => (b'a' + r.below(26) as u8) as char,
            }
        });
    }
    s
}

impl Names for Tmpl {
    fn cfg_names(&self) -> &'static [&'static str] {
        &["place", "grow", "fill", "aseed", "cap", "pre"]
    }
    fn op_names(&self, _: u8) -> &'static [&'static str] {
        &["root", "val", "step"]
    }
    fn fault_names(&self) -> &'static [&'static str] {
        &["panic", "cancel"]
    }
}
/// Values of a task's own.
fn of_task(v: &[Val], t: usize) -> Vec<Val> {
    (0..v.len()).map(|i| v[(i + 7 * t) % v.len()].clone()).collect()
}
impl System for Tmpl {
    fn counters(&self) -> &'static [&'static str] {
        COUNTERS
    }
    fn boot(&self, _: &str, _: &mut Rng) -> i64 {
        0
    }
    fn enter(&self, _: i64) {}
    fn gen(&self, prop: &str, _: i64, r: &mut Rng) -> Case {
        let mut c = Case::default();
        c.set("place", r.below(3) as i64);
        c.set("grow", r.below(3) as i64);
        c.set("fill", r.below(4) as i64);
        c.set("aseed", r.below(1 << 20) as i64);
        let cap = match if prop == "C07" { r.below(3) } else { r.below(6) } {
            0 => 0,
            1 | 2 => 1 << 16,
            3 => r.log(200) as i64,
            _ => r.log(4000) as i64,
        };
        c.set("cap", cap);
        c.set("pre", r.log(40) as i64 - 1);
        let roots = if prop == "C20" { *r.pick(&[1, 2, 2, 3, 4]) } else { *r.pick(&[1, 1, 1, 2, 3]) };
        let mut holes = vec![];
        for _ in 0..roots {
            let mut i = r.below(self.progs.len() as u64) as i64;
            if let (Some(o), "C20", true) = (c.ops.last(), prop, r.chance(1, 3)) {
                // the same template twice at once
                i = o.a[0];
            }
            let (_, p) = self.prog(i);
            holes.extend(p.holes.iter().copied());
            let mode = *r.pick(&[0, 0, 0, 0, 1, 2]);
            let refuse = (prop == "C07" && r.chance(2, 3) || r.chance(1, 8)) as i64;
            c.ops.push(Op { k: 0, a: [i, mode, refuse, 0], s: String::new() });
        }
        holes.sort();
        holes.dedup();
        // conditions lean one way or the other
        let bias = *r.pick(&[1u64, 5, 9]);
        for h in holes {
            let mut n = r.below(1 << 30) & !1 | r.chance(bias, 10) as u64;
            if r.chance(1, 30) {
                n = *r.pick(&[u64::MAX, u32::MAX as u64, 1 << 63, 0, 10, 1 << 31]);
            }
            if r.chance(1, 10) {
                // few different values, so that equal ones meet
                n &= 15;
            }
            c.ops.push(Op { k: 1, a: [h as i64, n as i64, 0, 0], s: hostile(r) });
        }
        let faults = *r.pick(&[0, 1, 1, 1, 2]);
        if prop == "C20" {
            // when which task goes on, and what happens to it
            let v = vals(&c);
            let roots: Vec<Op> = c.ops.iter().filter(|o| o.k == 0).cloned().collect();
            let mut steps = 0;
            let mut f = vec![];
            for (t, o) in roots.iter().enumerate() {
                let (_, p) = self.prog(o.a[0]);
                let v = of_task(&v, t);
                let mut m = Model::new(&v, &[], &[], &p);
                let _ = m.all(&p, o.a[1] != 2 || p.multi);
                steps += m.suspended + 1;
                if r.chance(1, 3) {
                    f.push((0, 1 + r.below(m.log.len() as u64 + 1) as i64, t as i64));
                }
                if r.chance(1, 3) {
                    f.push((1, r.below(m.suspended + 2) as i64, t as i64));
                }
            }
            c.faults = f;
            let sticky = *r.pick(&[0u64, 3, 8]);
            let mut t = 0;
            for _ in 0..steps {
                if !r.chance(sticky, 10) {
                    t = r.below(roots.len() as u64) as i64;
                }
                c.ops.push(Op { k: 2, a: [t, 0, 0, 0], s: String::new() });
            }
            return c;
        }
        if faults > 0 {
            // somewhere among what would happen without
            let v = vals(&c);
            let mut total = 0;
            for o in c.ops.iter().filter(|o| o.k == 0) {
                let (_, p) = self.prog(o.a[0]);
                let mut m = Model::new(&v, &[], &[], &p);
                let _ = m.all(&p, o.a[1] != 2 || p.multi);
                total += m.log.len();
            }
            for _ in 0..faults {
                c.faults.push((0, 1 + r.below(total as u64 + 1) as i64, 0));
            }
        }
        c
    }
    fn run(&self, prop: &str, case: &Case) -> u64 {
        simrt::set_mode(simrt::SYS);
        if prop == "C20" {
            return self.tasks(case);
        }
        let values = vals(case);
        let panics: Vec<i64> = case.faults.iter().filter(|f| f.0 == 0).map(|f| f.1).collect();
        simrt::alloc::begin_run(simrt::alloc::AllocCfg {
            place: case.get("place") as u8,
            grow: case.get("grow") as u8,
            fill: case.get("fill") as u8,
            seed: case.get("aseed") as u64,
            ..Default::default()
        });
        REAL.with(|r| *r.borrow_mut() = Real { panics: panics.clone(), vals: values.clone(), ..Real::default() });
        let mut expected = String::new();
        let mut log: Vec<Ev> = vec![];
        let mut digest = 7u64;
        let pre = "'<&>\"".repeat(9);
        let pre = &pre[..case.get("pre").clamp(0, 40) as usize];
        let mut buf = match sut(|| {
            let mut b = Buffer::with_capacity(case.get("cap").clamp(0, 1 << 18) as usize);
            b.push_str(pre);
            b
        }) {
            Ok(b) => b,
            Err(e) => {
                violate!("unexpected-panic", "making a buffer failed: {e:?}");
                return 0;
            }
        };
        expected.push_str(pre);
        let mut unwound = false;
        for o in case.ops.iter().filter(|o| o.k == 0) {
            if simrt::violated() {
                break;
            }
            let (i, p) = self.prog(o.a[0]);
            let e = self.progs[i];
            let mode = if p.multi { 1 } else { o.a[1].clamp(0, 2) as u8 };
            count(cnt::ROOTS, 1);
            if mode == 1 {
                count(cnt::STRINGS, 1);
            }
            if mode == 2 {
                count(cnt::ABANDONED, 1);
            }
            // how much it will write
            let dry = {
                let mut m = Model::new(&values, &[], &[], &p);
                let _ = m.all(&p, true);
                m.out.len()
            };
            let (cap, len) = (buf.capacity(), buf.len());
            let ample = mode != 1 && cap - len >= dry * 6 + 128;
            let refuse = ample && o.a[2] & 1 == 1;
            let req0 = simrt::alloc::stats().requests;
            if refuse {
                count(cnt::REFUSING, 1);
                simrt::alloc::set_refusal(1, true);
            }
            let Fun::Run(fun) = e.fun else { break };
            let got = sut(|| fun(&mut buf, mode));
            let req = simrt::alloc::stats().requests - if refuse { 0 } else { req0 };
            if refuse {
                simrt::alloc::set_refusal(0, false);
            }
            let seen = REAL.with(|r| r.borrow().log.clone());
            let before = expected.len();
            let log0 = log.len();
            let mut m = Model::new(&values, &panics, &seen, &p);
            m.log = std::mem::take(&mut log);
            let want = m.all(&p, mode != 2);
            log = std::mem::take(&mut m.log);
            let doc = std::mem::take(&mut m.out);
            if unwound {
                count(cnt::AFTER, 1);
            }
            if let Err(s) = want {
                unwound = true;
                let k = log[s.0 as usize - 1].0 as usize;
                count(cnt::PANIC_E + [0, 1, 2, 3, 4, 0, 8][k], 1);
            }
            let say = |e: Option<&Ev>| match e {
                Some(e) => format!("{} of hole {} at index {}", KINDS[e.0 as usize], e.1, e.2),
                None => "nothing".into(),
            };
            let name = e.name;
            let mut dead = false;
            // refused although there was room: before anything else, that is what happened
            if ample && prop == "C07" && req > 0 {
                violate!("allocation-although-room", "{name}: {req} allocator requests constructing and rendering into {} bytes of room for {dry} bytes of text", cap - len);
                dead = true;
            }
            if !dead && want.is_ok() && prop == "C07" {
                let bits = |n: u64| (64 - n.leading_zeros()) as u64;
                let peak = (expected.len() + doc.len()) as u64 * 6 + 64;
                let bound = if mode == 1 { 4 + 5 * bits(peak / 16384) / 2 } else { 4 + 5 * bits(peak) / 2 };
                if req > bound {
                    violate!("too-many-allocations", "{name}: {req} allocator requests for {} bytes of output", doc.len());
                }
            }
            if seen != log {
                let i = seen.iter().zip(&log).position(|(a, b)| a != b).unwrap_or(seen.len().min(log.len()));
                let class = match (seen.get(i), log.get(i)) {
                    (Some(a), _) if a.0 == R && mode == 2 => "rendered-without-render",
                    (Some(a), Some(b)) if (a.0 == N) != (b.0 == N) => "iteration-order",
                    (Some(a), None) | (None, Some(a)) if a.0 == N => "iteration-order",
                    _ => "user-code-order",
                };
                violate!(class, "{name}: entry {} into user code should be {}, was {}", i - log0.min(i), say(log.get(i)), say(seen.get(i)));
                // the output may still tell something of its own
                if simrt::foreign() {
                    simrt::new_case();
                }
                dead = true;
            }
            let outcome = match (&want, &got) {
                (Ok(()), Ok(_)) => true,
                (Err(a), Err(Caught::Injected(b))) => a.0 == *b as i64,
                _ => false,
            };
            if !outcome {
                violate!("wrong-outcome", "{name}: expected {want:?}, got {:?}", got.as_ref().map(|_| ()));
                dead = true;
            }
            let (real, exp): (Vec<u8>, Vec<u8>) = if mode == 1 {
                if buf.as_str() != expected {
                    violate!("earlier-output-changed", "{name}: rendering to a string changed another buffer");
                }
                match &got {
                    Ok(Some(s)) if want.is_ok() => (s.as_bytes().to_vec(), doc.into_bytes()),
                    _ => (vec![], vec![]),
                }
            } else {
                let all = buf.as_str().as_bytes();
                if all.len() < before || all[..before] != *expected.as_bytes() {
                    violate!("earlier-output-changed", "{name}: the first {before} bytes of the output changed");
                }
                expected += &doc;
                (all[before.min(all.len())..].to_vec(), doc.into_bytes())
            };
            digest = hash_bytes(digest, &real);
            count(cnt::BYTES, real.len() as u64);
            if real != exp {
                let i = real.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(real.len().min(exp.len()));
                let at = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 40).min(v.len())]).into_owned();
                violate!("wrong-output", "{name}: at byte {i} the output reads {:?} instead of {:?}", at(&real), at(&exp));
                dead = true;
            }
            simrt::run::state(mix(i as u64 ^ (mode as u64) << 32 ^ (want.err().map_or(0, |s| s.0 as u64 - log0 as u64)) << 40));
            if let Ok(Some(s)) = got {
                drop(s);
            }
            if dead || simrt::foreign() {
                break;
            }
        }
        if !log.is_empty() || expected.len() > pre.len() {
            simrt::run::distinct(case.hash());
        }
        let end = sut(|| buf.into_string());
        match end {
            Ok(s) => drop(s),
            Err(e) => violate!("unexpected-panic", "into_string failed: {e:?}"),
        }
        outside(|| {
            REAL.with(|r| {
                let mut r = r.borrow_mut();
                for (id, (a, b)) in &r.live {
                    if a != b {
                        violate!("drop-count", "values of hole {id}: {a} were made, {b} dropped");
                        break;
                    }
                }
                if let Some(id) = r.double {
                    violate!("drop-count", "a value of hole {id} was dropped twice");
                }
                count(cnt::EVENTS, r.log.len() as u64);
                digest = mix(digest ^ r.log.len() as u64);
                *r = Real::default();
            })
        });
        let st = simrt::alloc::end_run(true);
        count(cnt::MOVED, st.moved);
        count(cnt::REQ, st.requests);
        digest
    }
    fn per_epoch(&self, _: &str) -> u64 {
        400
    }
    fn epochs(&self, _: &str, thorough: bool) -> u64 {
        if thorough {
            20000
        } else {
            1500
        }
    }
    fn describe(&self, c: &Case) -> String {
        let mut s = String::new();
        for o in &c.ops {
            match o.k {
                0 => {
                    let (i, _) = self.prog(o.a[0]);
                    let how = ["rendered into the output", "rendered to a string", "constructed and dropped"][o.a[1].clamp(0, 2) as usize];
                    s += &format!("{} {how}{}\n", self.progs[i].name, if o.a[2] & 1 == 1 { ", every allocation refused if there is room" } else { "" });
                }
                2 => s += &format!("task {} goes on\n", o.a[0]),
                _ => s += &format!("hole {}: {} {:?}\n", o.a[0], o.a[1], o.s),
            }
        }
        for f in &c.faults {
            if f.0 == 1 {
                s += &format!("fault: task {} is dropped after {} polls\n", f.2, f.1);
                continue;
            }
            s += &format!("fault: entry {} into user code{} panics\n", f.1, if f.2 > 0 { format!(" of task {}", f.2) } else { String::new() });
        }
        s
    }
    fn classes(&self, prop: &str) -> &'static [&'static str] {
        match prop {
            "C07" => &["allocation-*", "too-many-allocations"],
            "C08" => &["wrong-output", "wrong-outcome", "earlier-output-changed", "unexpected-panic", "crash", "no-progress", "heap-*"],
            "C09" => &["user-code-order", "drop-count", "rendered-without-render", "wrong-outcome", "unexpected-panic", "crash", "no-progress", "leak"],
            "C10" => &["iteration-order", "user-code-order", "drop-count", "wrong-output", "wrong-outcome", "crash", "no-progress"],
            "C20" => &[
                "wrong-output", "wrong-outcome", "user-code-order", "drop-count", "unexpected-panic", "crash", "no-progress", "leak", "heap-*",
            ],
            "C17" => &["wrong-output", "wrong-outcome", "earlier-output-changed", "unexpected-panic", "crash", "no-progress", "heap-*"],
            _ => &[
                "wrong-output", "wrong-outcome", "earlier-output-changed", "user-code-order", "iteration-order", "drop-count",
                "rendered-without-render", "unexpected-panic", "crash", "no-progress", "leak", "heap-*",
            ],
        }
    }
    fn control(&self, _: &str, _: &Case) -> Option<Case> {
        None
    }
    fn control_boot(&self, _: &str, boot: i64) -> i64 {
        boot
    }
}

pub fn main(all: &[&'static [Entry]]) -> ! {
    let progs: Vec<&'static Entry> = all.iter().flat_map(|p| p.iter()).collect();
    let t: &'static Tmpl = Box::leak(Box::new(Tmpl { progs }));
    std::process::exit(simrt::run::main(t))
}
