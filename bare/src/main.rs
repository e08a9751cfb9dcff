//! The real library on a machine without operating system and standard library (run by Miri).
#![no_std]
#![no_main]
#![allow(warnings)]
#![cfg_attr(feature = "decl_macro", feature(decl_macro))]
extern crate alloc;

use alloc::{format, string::String, vec::Vec};
use core::alloc::{GlobalAlloc, Layout};
use core::fmt::Write;
use laby::internal::{escape, escape_str, Buffer};
use laby::*;

extern "Rust" {
    fn miri_write_to_stdout(bytes: &[u8]);
    fn miri_alloc(size: usize, align: usize) -> *mut u8;
    fn miri_dealloc(ptr: *mut u8, size: usize, align: usize);
}

/// Every growth moves, and new memory is not zero.
struct Heap;
static LIVE: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), core::sync::atomic::Ordering::Relaxed);
        miri_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), core::sync::atomic::Ordering::Relaxed);
        miri_dealloc(p, l.size(), l.align())
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

/// A whole line: other machines write at the same time.
fn say(s: &str) {
    unsafe { miri_write_to_stdout(s.as_bytes()) };
}
fn violation(class: &str, what: &str) -> ! {
    say(&format!("@violation {} {}\n", class, what.replace('\n', " ")));
    unsafe { core::hint::unreachable_unchecked() }
}
#[panic_handler]
fn panicked(i: &core::panic::PanicInfo) -> ! {
    violation("unexpected-panic", &format!("{}", i))
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    fn us(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o += "&amp;",
            '"' => o += "&quot;",
            '\'' => o += "&#39;",
            '<' => o += "&lt;",
            '>' => o += "&gt;",
            c => o.push(c),
        }
    }
    o
}
fn text(r: &mut Rng) -> String {
    let n = match r.us(4) {
        0 => r.us(4),
        1 => r.us(16),
        2 => 14 + r.us(8),
        _ => r.us(70),
    };
    let dense = 1 + r.us(12);
    (0..n).map(|_| if r.us(dense) == 0 { ['<', '>', '&', '"', '\'', 'é', '€', '😀'][r.us(8)] } else { (b'a' + r.us(26) as u8) as char }).collect()
}

/// Splits what it shows into pieces.
struct Show<'a>(&'a str, usize);
impl core::fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        let mut a = 0;
        for (i, _) in self.0.char_indices() {
            if i - a >= self.1 {
                f.write_str(&self.0[a..i])?;
                a = i;
            }
        }
        f.write_str(&self.0[a..])
    }
}

mod parts {
    use super::*;
    // without Macros 2.0 a default is resolved where the component is called
    pub fn here() -> &'static str {
        "h&"
    }
    #[laby]
    pub fn card(title: impl Render, #[default(here())] note: impl Render, #[default] more: Option<u8>, #[rest] kids: impl Render) -> impl Render {
        article!(class = "card", h1!(title), kids, p!(note), more)
    }
}
use parts::card;
#[cfg(not(feature = "decl_macro"))]
use parts::here;

macro_rules! case {
    ($buf:expr, $model:expr, $value:expr, $want:expr) => {{
        let want: String = $want;
        if $buf.len() % 3 == 0 {
            let s = render!($value);
            if s != want {
                violation("wrong-output", &format!("render! returned {:?} instead of {:?}", s, want));
            }
            $buf.push_str(&s);
        } else {
            Render::render($value, $buf);
        }
        *$model += &want;
    }};
}

fn op(r: &mut Rng, b: &mut Buffer, m: &mut String) {
    let t = text(r);
    let e = esc(&t);
    let n = r.next();
    let n = n >> (n % 64);
    match r.us(20) {
        0 => {
            b.push_str(&t);
            *m += &t;
        }
        1 => {
            let c = t.chars().next().unwrap_or('x');
            b.push(c);
            m.push(c);
        }
        2 => {
            escape(&t, b);
            *m += &e;
        }
        3 => {
            if escape_str(&t) != e {
                violation("wrong-output", &format!("escape_str({:?})", t));
            }
        }
        4 => case!(b, m, &t[..], e),
        5 => case!(b, m, t, e),
        6 => match r.us(6) {
            0 => case!(b, m, n as u8, format!("{}", n as u8)),
            1 => case!(b, m, n as i16, format!("{}", n as i16)),
            2 => case!(b, m, n as i32, format!("{}", n as i32)),
            3 => case!(b, m, n as i64, format!("{}", n as i64)),
            4 => case!(b, m, n as usize, format!("{}", n as usize)),
            _ => case!(b, m, (n as u128) << (n % 70), format!("{}", (n as u128) << (n % 70))),
        },
        7 => {
            // halves have a short exact form
            let f = (n % 100_000) as f64 / 2.0;
            case!(b, m, f, format!("{:?}", f))
        }
        8 => case!(b, m, n % 2 == 0, format!("{}", n % 2 == 0)),
        9 => case!(b, m, if n % 2 == 0 { Some(&t[..]) } else { None }, if n % 2 == 0 { e } else { String::new() }),
        10 => case!(b, m, div!(class = &t[..], id = n as u32, &t[..], br!()), format!("<div class=\"{}\" id=\"{}\">{}<br></div>", e, n as u32, e)),
        11 => case!(b, m, input!(disabled = bool!(n % 2 == 0), value = t), format!("<input{} value=\"{}\">", if n % 2 == 0 { " disabled" } else { "" }, e)),
        12 => case!(b, m, frag!(raw!(&t[..]), disp!(Show(&t, 1 + n as usize % 7))), format!("{}{}", t, e)),
        13 => case!(b, m, format_args!("{}-{:>5}", t, n % 100), format!("{}-{:>5}", e, n % 100)),
        14 => {
            let v: Vec<u16> = (0..n % 6).map(|i| (n >> i) as u16).collect();
            let w = v.iter().map(|i| format!("{}", i)).collect::<Vec<_>>().join(", ");
            case!(b, m, iter!(", ", v.into_iter()), w)
        }
        15 => {
            let k = n % 3;
            case!(b, m, frag_match!(match k { 0 => "zero", 1 => &t[..], _ => li!(k) }), match k { 0 => "zero".into(), 1 => e, _ => format!("<li>{}</li>", k) })
        }
        16 => {
            let w = format!("<article class=\"card\"><h1>{}</h1>{}{}<p>h&amp;</p></article>", e, n as u8, e);
            #[cfg(feature = "decl_macro")]
            case!(b, m, parts::card!(n as u8, title = &t[..], &t[..]), w);
            #[cfg(not(feature = "decl_macro"))]
            case!(b, m, card!(n as u8, title = &t[..], &t[..]), w);
        }
        17 => {
            let w = format!("<p class=\"a {}\"><article class=\"card\"><h1>x</h1><p>{}</p>7</article></p>", e, e);
            case!(b, m, p!(class = classes!("a", &t[..]), card!(more = Some(7u8), note = &t[..], title = "x")), w)
        }
        18 => {
            if n % 4 == 0 {
                b.clear();
                m.clear();
            } else if n % 4 == 1 {
                let c = b.clone();
                *b = c;
            } else {
                b.reserve(n as usize % 200);
                if b.capacity() - b.len() < n as usize % 200 {
                    violation("capacity-lies", "reserve did not reserve");
                }
            }
        }
        _ => {
            let s = core::mem::replace(b, Buffer::new()).into_string();
            *b = Buffer::from(s);
        }
    }
}

fn history(seed: u64, keep: Option<&[usize]>) {
    let mut r = Rng(seed);
    let mut b = Buffer::with_capacity(r.us(2) * r.us(100));
    let mut m = String::new();
    let n = 8 + r.us(24);
    say(&format!("@history {:x} {}\n", seed, n));
    for i in 0..n {
        if let Some(k) = keep {
            if !k.contains(&i) {
                continue;
            }
        }
        let s = seed ^ (i as u64 + 1) << 40;
        op(&mut Rng(s), &mut b, &mut m);
        if b.as_str().as_bytes() != m.as_bytes() {
            violation("wrong-output", &format!("after step {} the buffer holds {:?} instead of {:?}", i, b.as_str(), m));
        }
        if b.len() != m.len() || b.is_empty() != m.is_empty() || b.capacity() < b.len() {
            violation("capacity-lies", &format!("after step {}: length {} capacity {}", i, b.len(), b.capacity()));
        }
    }
    say(&format!("@ran {:x} {:x} 0\n", seed, n));
}

unsafe fn word<'a>(p: *const u8) -> &'a str {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n))
}

#[no_mangle]
fn miri_start(argc: isize, argv: *const *const u8) -> isize {
    let arg = |i: isize| if i < argc { Some(unsafe { word(*argv.offset(i)) }) } else { None };
    if let Some(s) = arg(2) {
        // replay: a history's seed and the steps to make
        let s = u64::from_str_radix(s, 16).unwrap();
        let keep: Option<Vec<usize>> = arg(3).map(|k| k.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
        history(s, keep.as_deref());
    } else {
        // the interpreter's seed decides where blocks lie; that decides everything else
        let mut e = 0u64;
        for i in 0..40 {
            unsafe {
                let p = miri_alloc(1 + i * 7, 1);
                e = e.rotate_left(7).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ p as usize as u64;
                if i % 3 == 0 {
                    miri_dealloc(p, 1 + i * 7, 1);
                }
            }
        }
        let mut r = Rng(e);
        for _ in 0..arg(1).map_or(4, |n| n.parse::<u32>().unwrap()) {
            let s = r.next();
            history(s, None);
        }
    }
    let left = LIVE.load(core::sync::atomic::Ordering::Relaxed);
    if left != 0 {
        violation("leak", &format!("{} bytes not released", left));
    }
    0
}
