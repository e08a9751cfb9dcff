//! World 1: histories of operations over buffers and strings, against a vector of strings.
use crate::tree::{cnt, esc, gen_str, text_of};
use laby::internal::{escape, escape_str, Buffer};
use laby::Render;
use simrt::run::{count, Case, Op};
use simrt::{rng::mix, rng::Rng, sut, violate, Caught};
use std::fmt::Write as _;

macro_rules! kinds {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        #[repr(u16)]
        pub enum K { $($n),* }
        pub const NAMES: &[&str] = &[$(stringify!($n)),*];
        const ALL: &[K] = &[$(K::$n),*];
    };
}
kinds! {
    new, with_capacity, from_str, default, push_str, push, reserve, reserve_fit, clear, into_string, from_string, clone, add,
    add_assign, write_str, write_char, write_fmt, escape, escape_str, render_int, render_char, drop, debug, mv,
    str_new, str_push, str_shrink, fit, huge,
}
const NB: usize = 4;
const NS: usize = 3;

fn kind(o: &Op) -> K {
    ALL.get(o.k as usize).copied().unwrap_or(K::clear)
}
fn ch(o: &Op) -> char {
    char::from_u32(o.a[1] as u32).unwrap_or('\u{fffd}')
}

/// A size no machine can provide, or one this one refuses.
fn huge_size(x: i64, cap: usize) -> usize {
    let m = usize::MAX;
    let i = isize::MAX as usize;
    match x.rem_euclid(16) {
        0 => m,
        1 => m - 1,
        2 => i + 1,
        3 => i,
        4 => i - 1,
        5 => m - cap,
        6 => m - cap + usize::from(cap > 0),
        7 => (m - cap).saturating_add(2),
        8 => i - cap,
        9 => (i - cap) + 1,
        10 => m - 8,
        11 => m / 2 + cap + 1,
        12 => m - 2 * cap,
        13 => 1usize.checked_shl(40).unwrap_or(m / 4),
        14 => 5 << 20,
        _ => (m - cap).saturating_add(17),
    }
}

struct W {
    b: [Option<Buffer>; NB],
    s: [Option<String>; NS],
}

enum Fail {
    /// The buffer survives with some prefix of the appended text.
    Buf(usize),
    /// Consumed operands are gone, nothing else changed.
    Gone,
}

fn show(s: &str) -> String {
    if s.len() > 100 {
        let c: String = s.chars().take(60).collect();
        format!("{c:?}.. ({} bytes)", s.len())
    } else {
        format!("{s:?}")
    }
}

pub fn run(_prop: &str, case: &Case) -> u64 {
    let cfg = simrt::alloc::AllocCfg {
        place: case.get("place") as u8,
        grow: case.get("grow") as u8,
        fill: case.get("fill") as u8,
        revoke: case.get("revoke") != 0,
        seed: case.get("aseed") as u64,
        ..Default::default()
    };
    simrt::alloc::begin_run(cfg);
    if cfg.revoke {
        count(cnt::REVOKED, 1);
    }
    let mut fails: Vec<(i64, i64)> = case.faults.iter().filter(|f| f.0 == 1).map(|f| (f.1.max(1), f.2)).collect();
    fails.sort();
    let mut w = W { b: Default::default(), s: Default::default() };
    let mut mb: [Option<String>; NB] = Default::default();
    let mut ms: [Option<String>; NS] = Default::default();
    // capacity that was asked for and has to be there still
    let mut owed = [0usize; NB];
    let mut unwound = false;
    let mut digest = 7u64;
    let mut total_req = 0u64;
    let arm = |fails: &Vec<(i64, i64)>, done: u64| match fails.first() {
        Some(f) => {
            let left = (f.0 - done as i64).max(1);
            simrt::alloc::set_refusal(left as u64, f.1 != 0);
        }
        None => simrt::alloc::set_refusal(0, false),
    };
    arm(&fails, 0);
    let mut req_base = 0u64;
    let most = if cfg!(miri) { 400 } else { 1 << 17 };
    for (opi, o) in case.ops.iter().enumerate() {
        if simrt::violated() {
            break;
        }
        count(cnt::HISTOPS, 1);
        let i = o.a[0].rem_euclid(NB as i64) as usize;
        let j = o.a[1].rem_euclid(NB as i64) as usize;
        let si = o.a[2].rem_euclid(NS as i64) as usize;
        let k = kind(o);
        let n = o.a[1].clamp(0, 1 << 22) as usize;
        let st0 = simrt::alloc::stats();
        let before = mb[i].clone();
        let (cap0, len0) = w.b[i].as_ref().map_or((0, 0), |b| (b.capacity(), b.len()));
        let room = cap0 - len0;
        let hop = o.a[3] & 1 == 1 && case.get("hops") != 0;
        let mut added = String::new();
        let mut fail = Fail::Buf(i);
        let mut impossible = false;
        let mut noreq = false;
        let mut skip = false;
        // what the operation does to the model
        match k {
            K::new | K::default => mb[i] = Some(String::new()),
            K::with_capacity => {
                fail = Fail::Gone;
            }
            K::from_str => fail = Fail::Gone,
            K::push_str | K::add | K::add_assign | K::write_str => {
                added = o.s.clone();
                noreq = o.s.len() <= room;
            }
            K::push | K::write_char => added = ch(o).to_string(),
            K::render_char => esc(&ch(o).to_string(), &mut added),
            K::write_fmt => {
                added = format!("{}|{}", o.s, o.a[1]);
            }
            K::escape => esc(&o.s, &mut added),
            K::render_int => added = o.a[1].to_string(),
            K::reserve | K::reserve_fit => {}
            K::huge => {}
            K::fit => {
                added = "x".repeat(room.min(n));
                noreq = true;
            }
            _ => {}
        }
        if matches!(
            k,
            K::push_str | K::push | K::add | K::add_assign | K::write_str | K::write_char | K::write_fmt | K::escape | K::render_int
                | K::render_char | K::reserve | K::reserve_fit | K::clear | K::into_string | K::clone | K::debug | K::mv | K::fit
        ) && mb[i].is_none()
        {
            skip = true;
        }
        if k == K::huge && mb[i].is_none() && o.a[2] & 1 == 0 {
            skip = true;
        }
        if matches!(k, K::from_string | K::str_push | K::str_shrink) && ms[si].is_none() {
            skip = true;
        }
        if skip {
            continue;
        }
        let hs = huge_size(o.a[1], cap0);
        if k == K::huge {
            count(cnt::HUGE, 1);
        }
        let mut text_out: Option<String> = None;
        let mut body = || -> Result<(), Caught> {
            let w = &mut w;
            let text_out = &mut text_out;
            sut(move || match k {
                K::new => w.b[i] = Some(Buffer::new()),
                K::default => w.b[i] = Some(Buffer::default()),
                K::with_capacity => w.b[i] = Some(Buffer::with_capacity(n)),
                K::from_str => w.b[i] = Some(Buffer::from(&o.s[..])),
                K::push_str => w.b[i].as_mut().unwrap().push_str(&o.s),
                K::push => w.b[i].as_mut().unwrap().push(ch(o)),
                K::reserve | K::reserve_fit => w.b[i].as_mut().unwrap().reserve(n),
                K::clear => w.b[i].as_mut().unwrap().clear(),
                K::into_string => w.s[si] = Some(w.b[i].take().unwrap().into_string()),
                K::from_string => w.b[i] = Some(Buffer::from(w.s[si].take().unwrap())),
                K::clone => w.b[j] = Some(w.b[i].as_ref().unwrap().clone()),
                K::add => {
                    let b = w.b[i].take().unwrap() + &o.s[..];
                    w.b[i] = Some(b);
                }
                K::add_assign => *w.b[i].as_mut().unwrap() += &o.s[..],
                K::write_str => w.b[i].as_mut().unwrap().write_str(&o.s).unwrap(),
                K::write_char => w.b[i].as_mut().unwrap().write_char(ch(o)).unwrap(),
                K::write_fmt => write!(w.b[i].as_mut().unwrap(), "{}|{}", o.s, o.a[1]).unwrap(),
                K::escape => escape(&o.s, w.b[i].as_mut().unwrap()),
                K::escape_str => w.s[si] = Some(escape_str(&o.s)),
                K::render_int => o.a[1].render(w.b[i].as_mut().unwrap()),
                K::render_char => ch(o).render(w.b[i].as_mut().unwrap()),
                K::drop => w.b[i] = None,
                K::mv => {
                    let b = w.b[i].take();
                    w.b[j] = b;
                }
                K::debug => {
                    let t = simrt::outside(|| format!("{:?}", w.b[i].as_ref().unwrap()));
                    simrt::outside(|| *text_out = Some(t));
                }
                K::str_new => {
                    let mut s = String::with_capacity(o.s.len() + n.min(512));
                    s.push_str(&o.s);
                    w.s[si] = Some(s);
                }
                K::str_push => w.s[si].as_mut().unwrap().push_str(&o.s),
                K::str_shrink => w.s[si].as_mut().unwrap().shrink_to_fit(),
                K::fit => {
                    let b = w.b[i].as_mut().unwrap();
                    let c = simrt::outside(|| "x".repeat((b.capacity() - b.len()).min(n)));
                    b.push_str(&c);
                    simrt::outside(|| drop(c));
                }
                K::huge => {
                    if o.a[2] & 1 == 1 {
                        w.b[i] = Some(Buffer::with_capacity(hs));
                    } else {
                        w.b[i].as_mut().unwrap().reserve(hs);
                    }
                }
            })
        };
        let refused0 = st0.refused;
        let r = if hop {
            count(cnt::HOPS, 1);
            struct Sendit<T>(T);
            unsafe impl<T> Send for Sendit<T> {}
            let b = Sendit(&mut body);
            std::thread::scope(|sc| {
                sc.spawn(move || {
                    let b = b;
                    Sendit((b.0)())
                })
                .join()
                .unwrap()
                .0
            })
        } else {
            body()
        };
        let st = simrt::alloc::stats();
        let reqs = st.requests - st0.requests;
        total_req += reqs;
        let refused = st.refused > refused0;
        match r {
            Ok(()) => {
                if refused {
                    violate!("refusal-ignored", "{k:?} returned although the allocator refused it memory");
                }
                match k {
                    K::with_capacity => mb[i] = Some(String::new()),
                    K::from_str => mb[i] = Some(o.s.clone()),
                    K::clear => mb[i].as_mut().unwrap().clear(),
                    K::into_string => {
                        ms[si] = mb[i].take();
                        if reqs != 0 {
                            violate!("allocation-in-into-string", "into_string made {reqs} allocator requests");
                        }
                    }
                    K::from_string => mb[i] = ms[si].take(),
                    K::clone => mb[j] = mb[i].clone(),
                    K::escape_str => {
                        let mut t = String::new();
                        esc(&o.s, &mut t);
                        ms[si] = Some(t);
                    }
                    K::drop => mb[i] = None,
                    K::mv => {
                        let b = mb[i].take();
                        mb[j] = b;
                    }
                    K::str_new => ms[si] = Some(o.s.clone()),
                    K::str_push => ms[si].as_mut().unwrap().push_str(&o.s),
                    K::debug => {
                        let want = format!("{:?}", mb[i].as_ref().unwrap());
                        if text_out.as_deref() != Some(&want) {
                            violate!("debug-differs", "Debug gives {:?} instead of {want:?}", text_out);
                        }
                    }
                    K::huge => {
                        let b = w.b[i].as_ref().unwrap();
                        if o.a[2] & 1 == 1 {
                            mb[i] = Some(String::new());
                        }
                        if b.capacity() - b.len().min(b.capacity()) < hs {
                            violate!(
                                "impossible-size-accepted",
                                "{} bytes were asked for with capacity {cap0} length {len0}: returned with capacity {}",
                                hs,
                                b.capacity()
                            );
                        }
                    }
                    _ => {
                        if !added.is_empty() {
                            mb[i].as_mut().unwrap().push_str(&added);
                        }
                    }
                }
                if matches!(k, K::reserve | K::reserve_fit | K::with_capacity) {
                    let b = w.b[i].as_ref().unwrap();
                    if b.capacity() < b.len() + n {
                        violate!("capacity-promise", "{k:?}({n}): capacity {} length {}", b.capacity(), b.len());
                    }
                    if k != K::with_capacity && n <= room && reqs > 0 {
                        violate!("allocation-although-room", "reserve({n}) with {room} bytes of room asked the allocator");
                    }
                }
                match k {
                    K::with_capacity => owed[i] = n,
                    K::reserve | K::reserve_fit => owed[i] = owed[i].max(len0 + n),
                    K::new | K::default | K::from_str | K::from_string | K::into_string | K::drop => owed[i] = 0,
                    K::huge if o.a[2] & 1 == 1 => owed[i] = 0,
                    K::clone => owed[j] = 0,
                    K::mv => {
                        let x = owed[i];
                        owed[i] = 0;
                        owed[j] = x;
                    }
                    _ => {}
                }
                if noreq && reqs > 0 {
                    violate!("allocation-although-room", "{k:?} of {} bytes into {room} bytes of room asked the allocator", added.len());
                }
            }
            Err(c) => {
                count(cnt::UNWOUND, 1);
                unwound = true;
                let need = if k == K::huge { hs } else { n.max(o.s.len() * 6 + 64) };
                impossible = cap0.saturating_add(need) > isize::MAX as usize;
                match &c {
                    Caught::Oom(_) if refused => count(cnt::OOM, 1),
                    Caught::Panic(_) if impossible || refused => {}
                    _ => violate!("failure-without-cause", "{k:?} failed with {c:?} although nothing was refused and the size is possible"),
                }
                if matches!(k, K::from_string | K::add | K::escape_str | K::clone | K::str_new | K::str_push | K::str_shrink) {
                    fail = Fail::Gone;
                }
                match fail {
                    Fail::Gone => {
                        // operands that were moved in are gone, the rest is as it was
                        if k == K::from_string {
                            ms[si] = None;
                        }
                        if k == K::add {
                            owed[i] = 0;
                            mb[i] = None;
                        }
                        if k == K::str_push {
                            // std's business: text unchanged
                        }
                    }
                    Fail::Buf(i) => {
                        let real = w.b[i].as_ref().map(|b| b.as_str().as_bytes().to_vec());
                        match (&real, &before) {
                            (Some(r), Some(b)) => {
                                if std::str::from_utf8(r).is_err() {
                                    violate!("invalid-utf8", "content after a failed {k:?}");
                                } else if !r.starts_with(b.as_bytes()) || !added.as_bytes().starts_with(&r[b.len().min(r.len())..]) {
                                    violate!("lost-text", "after a failed {k:?} the buffer holds {}", show(&String::from_utf8_lossy(r)));
                                } else {
                                    mb[i] = Some(String::from_utf8_lossy(r).into_owned());
                                }
                            }
                            (None, None) => {}
                            _ => {}
                        }
                    }
                }
                // the refusal that fired is spent
                let done = total_req as i64;
                fails.retain(|f| f.0 > done);
                req_base = total_req;
                let _ = req_base;
                arm(&fails, total_req);
            }
        }
        let _ = impossible;
        // everything the program can see
        let cls = |a: &'static str, b: &'static str| if unwound { b } else { a };
        for x in 0..NB {
            match (&w.b[x], &mb[x]) {
                (Some(b), Some(m)) => {
                    if b.len() > b.capacity() {
                        violate!(cls("capacity-lies", "capacity-lies-after-failure"), "length {} exceeds capacity {}", b.len(), b.capacity());
                        break;
                    }
                    if b.capacity() > 0 && !simrt::alloc::holds(b.as_mut_ptr() as usize, b.capacity()) {
                        violate!(cls("capacity-lies", "capacity-lies-after-failure"), "after {k:?}: capacity {} but the block has {:?} bytes", b.capacity(), simrt::alloc::block_size(b.as_mut_ptr() as usize));
                        break;
                    }
                    if b.capacity() < owed[x] {
                        violate!(cls("capacity-promise", "capacity-promise-after-failure"), "after {k:?}: {} bytes of capacity were asked for and {} are left", owed[x], b.capacity());
                    }
                    if std::str::from_utf8(b.as_str().as_bytes()).is_err() {
                        violate!(cls("invalid-utf8", "invalid-utf8-after-failure"), "after {k:?} buffer {x} is not UTF-8");
                    } else if b.as_str() != m {
                        violate!(cls("wrong-content", "wrong-content-after-failure"), "after op {opi} {k:?} buffer {x} holds {} instead of {}", show(b.as_str()), show(m));
                    } else if b.len() != m.len() || b.is_empty() != m.is_empty() {
                        violate!(cls("wrong-length", "wrong-length-after-failure"), "len {} is_empty {} for {} bytes", b.len(), b.is_empty(), m.len());
                    }
                }
                (None, None) => {}
                (a, b) => violate!(cls("wrong-content", "wrong-content-after-failure"), "buffer {x}: exists {} expected {}", a.is_some(), b.is_some()),
            }
        }
        for x in 0..NS {
            if w.s[x] != ms[x] {
                violate!(cls("wrong-string", "wrong-string-after-failure"), "string {x} is {:?} instead of {:?}", w.s[x].as_deref().map(show), ms[x].as_deref().map(show));
            }
        }
        digest = mix(digest ^ reqs << 32 ^ (len0 as u64) << 8 ^ k as u64);
        let h = mix((k as u64) << 50 ^ (room.min(130) as u64) << 30 ^ (cap0.min(300) as u64) << 12 ^ (refused as u64) << 3 ^ (o.s.len().min(100) as u64) << 4);
        simrt::run::state(h);
        if o.a[3] & 2 == 2 && !refused {
            // refuse everything and use the room that is there
            if let (Some(b), Some(m)) = (&mut w.b[i], &mut mb[i]) {
                let room = b.capacity() - b.len();
                if room > 0 && room <= most {
                    simrt::alloc::set_refusal(1, true);
                    let part = if k == K::reserve_fit || k == K::with_capacity { n.min(room) } else { room };
                    let t = text_of(&mut Rng::new(o.a[1] as u64 ^ opi as u64), part);
                    let r = sut(|| b.push_str(&t));
                    let q = simrt::alloc::stats().requests;
                    if r.is_err() || q > 0 {
                        violate!("allocation-although-room", "{} bytes did not fit into {room} bytes of room: {r:?}", t.len());
                    } else {
                        m.push_str(&t);
                    }
                    if b.as_str() != m {
                        violate!(cls("wrong-content", "wrong-content-after-failure"), "using the room that was promised changed the content");
                    }
                    arm(&fails, total_req);
                    count(cnt::ALLFAIL, 1);
                }
            }
        }
    }
    let _ = sut(|| {
        w.b = Default::default();
        w.s = Default::default();
    });
    let st = simrt::alloc::end_run(!simrt::violated());
    count(cnt::REQUESTS, total_req);
    count(cnt::MOVED, st.moved);
    count(cnt::IN_PLACE, st.in_place);
    simrt::run::distinct(case.hash());
    mix(digest ^ total_req)
}

pub fn gen(prop: &str, r: &mut Rng) -> Case {
    let mut c = Case { world: 1, ..Case::default() };
    c.set("place", r.below(3) as i64);
    c.set("grow", r.below(3) as i64);
    c.set("fill", r.below(6) as i64);
    c.set("revoke", r.chance(1, 24) as i64);
    c.set("aseed", r.below(1 << 30) as i64);
    c.set("hops", r.chance(1, 6) as i64);
    let mut w = vec![0u32; ALL.len()];
    use K::*;
    for (k, x) in [
        (new, 3), (with_capacity, 6), (from_str, 5), (default, 1), (push_str, 24), (push, 12), (reserve, 8), (reserve_fit, 3), (clear, 4),
        (into_string, 6), (from_string, 8), (clone, 9), (add, 4), (add_assign, 4), (write_str, 5), (write_char, 4), (write_fmt, 4), (escape, 12),
        (escape_str, 3), (render_int, 5), (render_char, 4), (K::drop, 4), (debug, 1), (mv, 3), (str_new, 5), (str_push, 2), (str_shrink, 1), (fit, 6), (huge, 0),
    ] {
        w[k as usize] = x;
    }
    if prop == "C06" && r.chance(1, 2) {
        w[huge as usize] = 14;
    } else if prop == "C04" && r.chance(1, 4) {
        w[huge as usize] = 4;
    }
    if r.chance(1, 2) {
        for x in w.iter_mut() {
            if r.chance(1, 3) {
                *x = 0;
            }
        }
        w[new as usize] += 1;
        w[push_str as usize] += 4;
    }
    let nb = 1 + r.below(NB as u64) as i64;
    let nops = 2 + r.log(40);
    let big = r.chance(1, 5);
    // buffers of megabytes
    let vast = !cfg!(miri) && r.chance(1, 200);
    for x in 0..nops {
        let k = if x == 0 { *r.pick(&[new, with_capacity, from_str, default]) } else { ALL[r.weighted(&w)] };
        let mut o = Op { k: k as u16, ..Op::default() };
        o.a[0] = r.below(nb as u64) as i64;
        o.a[1] = match k {
            push | write_char | render_char => {
                if r.chance(1, 3) {
                    *r.pick(&[0x22, 0x26, 0x27, 0x3c, 0x3e, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff])
                } else {
                    r.below(0x11000) as i64
                }
            }
            with_capacity | reserve | reserve_fit | fit | str_new => {
                if r.chance(1, 12) {
                    0
                } else {
                    r.log(if vast { 4 << 20 } else if big { 60000 } else { 300 }) as i64
                }
            }
            render_int => r.next() as i64 >> r.below(64),
            huge => r.below(16) as i64,
            clone | mv => r.below(nb as u64) as i64,
            _ => r.below(1000) as i64,
        };
        o.a[2] = r.below(NS as u64) as i64;
        o.a[3] = r.below(2) as i64 | (r.chance(1, 4) as i64) << 1;
        if vast && k == str_new {
            o.a[1] = o.a[1].min(300);
        }
        if matches!(k, from_str | push_str | add | add_assign | write_str | write_fmt | escape | escape_str | str_new | str_push) {
            o.s = gen_str(r, big);
        }
        c.ops.push(o);
    }
    if prop != "C05" || r.chance(1, 4) {
        for _ in 0..r.below(4) {
            c.faults.push((1, r.log(20) as i64, r.chance(1, 4) as i64));
        }
    }
    c
}

pub fn describe(c: &Case) -> String {
    let mut o = String::new();
    for p in &c.ops {
        let s: String = p.s.chars().take(50).collect();
        o += &format!("{} b{} a1={} s{}{}{}\n", NAMES[kind(p) as usize], p.a[0].rem_euclid(NB as i64), p.a[1], p.a[2].rem_euclid(NS as i64), if p.s.is_empty() { String::new() } else { format!(" {s:?} ({} bytes)", p.s.len()) }, if p.a[3] & 2 == 2 { " then use all room while refusing memory" } else { "" });
    }
    for f in &c.faults {
        o += &format!("fault: allocator refuses request {}{}\n", f.1, if f.2 != 0 { " and all later ones" } else { "" });
    }
    o
}
