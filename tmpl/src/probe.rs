//! User code for generated templates: every entry is an event, numbered in order of arrival, that
//! the case may turn into a panic.
use laby::internal::{escape, Buffer};
use laby::Render;
use simrt::outside;
use std::cell::RefCell;
use std::fmt;

/// (kind, hole, index)
pub type Ev = (u8, u32, u32);
pub const E: u8 = 0; // a value expression is evaluated
pub const R: u8 = 1; // a value starts to render
pub const M: u8 = 2; // half of it is written
pub const F: u8 = 3; // formatting code is entered, once per piece
pub const N: u8 = 4; // an iterator is asked for its next item
pub const I: u8 = 5; // a component function is entered
pub const A: u8 = 6; // a future is polled
pub const KINDS: [&str; 7] = ["evaluate", "render", "half rendered", "format piece", "next", "enter component", "poll"];

/// What the case says about a hole.
#[derive(Clone, Default)]
pub struct Val {
    pub n: u64,
    pub s: String,
}

#[derive(Default)]
pub struct Real {
    pub log: Vec<Ev>,
    pub panics: Vec<i64>,
    pub vals: Vec<Val>,
    /// per hole: tracked values alive, made, gone
    pub live: std::collections::BTreeMap<u32, (i64, i64)>,
    pub double: Option<u32>,
}
thread_local! {
    pub static REAL: RefCell<Real> = RefCell::new(Real::default());
}

pub fn hit(k: u8, id: u32, ix: u32) {
    let n = outside(|| {
        REAL.with(|r| {
            let mut r = r.borrow_mut();
            r.log.push((k, id, ix));
            let n = r.log.len() as i64;
            if r.log.len() > 200_000 || r.panics.contains(&n) {
                Some(n)
            } else {
                None
            }
        })
    });
    if let Some(n) = n {
        simrt::inject(n as u32)
    }
}
/// How many items an iterator has: few, at times more than a byte counts.
pub fn items(n: u64) -> u32 {
    if n >> 20 & 255 == 255 {
        250 + (n >> 12 & 31) as u32
    } else {
        (n % ITEMS) as u32
    }
}
pub fn number(n: u64, ix: u32) -> u64 {
    n.wrapping_add(ix as u64 * 7)
}
fn num(id: u32, ix: u32) -> u64 {
    REAL.with(|r| number(r.borrow().vals.get(id as usize).map_or(0, |v| v.n), ix))
}
/// The text of a hole lives until the case is over.
fn text(id: u32) -> &'static str {
    REAL.with(|r| {
        let r = r.borrow();
        let s: &str = r.vals.get(id as usize).map_or("", |v| &v.s);
        unsafe { std::mem::transmute::<&str, &'static str>(s) }
    })
}
fn born(id: u32) {
    outside(|| REAL.with(|r| r.borrow_mut().live.entry(id).or_default().0 += 1))
}
fn died(id: u32) {
    outside(|| {
        REAL.with(|r| {
            let mut r = r.borrow_mut();
            let e = r.live.entry(id).or_default();
            e.1 += 1;
            if e.1 > e.0 {
                r.double = Some(id);
            }
        })
    })
}

/// A value whose rendering and dropping is observed.
pub struct P(u32, u32);
impl Drop for P {
    fn drop(&mut self) {
        died(self.0)
    }
}
pub const DEFAULT_ID: u32 = 0;
impl Default for P {
    fn default() -> P {
        p_(DEFAULT_ID, 0)
    }
}
/// Where a text is cut in half.
pub fn cut(s: &str) -> usize {
    let mut i = s.len() / 2;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
impl Render for P {
    fn render(self, b: &mut Buffer) {
        hit(R, self.0, self.1);
        let s = text(self.0);
        let (x, y) = s.split_at(cut(s));
        if num(self.0, 0) & 8 == 0 {
            escape(x, b);
            hit(M, self.0, self.1);
            y.render(b);
        } else {
            b.push_str(x);
            hit(M, self.0, self.1);
            b.push_str(y);
        }
    }
}
pub fn p_(id: u32, ix: u32) -> P {
    hit(E, id, ix);
    born(id);
    P(id, ix)
}
pub fn o_(id: u32, ix: u32) -> Option<P> {
    hit(E, id, ix);
    (num(id, ix) & 1 == 1).then(|| {
        born(id);
        P(id, ix)
    })
}
pub fn s_(id: u32, ix: u32) -> &'static str {
    hit(E, id, ix);
    text(id)
}
pub fn g_(id: u32, ix: u32) -> String {
    hit(E, id, ix);
    outside(|| text(id).to_string())
}
/// A text by number, to be owned or borrowed. (`Cow<str>` is no renderable value: its target would have to be `Sized`.)
#[derive(Clone, Copy)]
pub struct Txt(u32);
static TXT: [Txt; 4096] = {
    let mut t = [Txt(0); 4096];
    let mut i = 0;
    while i < t.len() {
        t[i].0 = i as u32;
        i += 1;
    }
    t
};
impl Render for &Txt {
    fn render(self, b: &mut Buffer) {
        text(self.0).render(b)
    }
}
impl Render for Txt {
    fn render(self, b: &mut Buffer) {
        escape(text(self.0), b)
    }
}
pub fn w_(id: u32, ix: u32) -> std::borrow::Cow<'static, Txt> {
    hit(E, id, ix);
    if num(id, ix) & 1 == 0 {
        std::borrow::Cow::Borrowed(&TXT[id as usize])
    } else {
        std::borrow::Cow::Owned(Txt(id))
    }
}
pub fn c_(id: u32, ix: u32) -> char {
    hit(E, id, ix);
    text(id).chars().next().unwrap_or('<')
}
pub fn n_(id: u32, ix: u32) -> u32 {
    hit(E, id, ix);
    num(id, ix) as u32
}
pub fn l_(id: u32, ix: u32) -> i64 {
    hit(E, id, ix);
    num(id, ix) as i64
}
pub fn b_(id: u32, ix: u32) -> bool {
    hit(E, id, ix);
    num(id, ix) & 1 == 1
}
/// what a match looks at
pub const ARMS: u64 = 6;
pub fn m_(id: u32, ix: u32) -> u32 {
    hit(E, id, ix);
    (num(id, ix) % ARMS) as u32
}

/// Counts in a variable of the caller's.
pub fn cnt_(id: u32, ix: u32, n: &mut u32) -> u32 {
    hit(E, id, ix);
    *n += 1;
    *n
}
/// How often a future is not ready.
pub fn pends(n: u64) -> u64 {
    n % 3
}
/// A future that is not ready at once, and holds its value till then.
pub struct Aw<T>(u32, u32, u64, Option<T>);
impl<T> Unpin for Aw<T> {}
impl<T> std::future::Future for Aw<T> {
    type Output = T;
    fn poll(mut self: std::pin::Pin<&mut Self>, c: &mut std::task::Context) -> std::task::Poll<T> {
        hit(A, self.0, self.1);
        if self.2 == 0 {
            return std::task::Poll::Ready(self.3.take().unwrap());
        }
        self.2 -= 1;
        c.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
pub fn aw_<T>(id: u32, ix: u32, v: T) -> Aw<T> {
    Aw(id, ix, pends(num(id, ix)), Some(v))
}
/// Render into a buffer of its own, to a string, or abandon.
pub fn out_<T: Render>(t: T, mode: u8) -> String {
    match mode {
        0 => {
            let mut b = Buffer::new();
            t.render(&mut b);
            b.into_string()
        }
        1 => laby::render!(t),
        _ => String::new(),
    }
}

/// A branch that does not come back.
pub fn never_(id: u32, ix: u32) -> ! {
    hit(E, id, ix);
    let n = outside(|| REAL.with(|r| r.borrow().log.len()));
    simrt::inject(n as u32)
}

/// Formatting code that hands its text over in pieces.
pub struct D(u32, u32);
impl Drop for D {
    fn drop(&mut self) {
        died(self.0)
    }
}
pub fn pieces(s: &str, n: u64) -> Vec<&str> {
    let mut v = vec![];
    let mut r = s;
    for _ in 0..n % 3 {
        let (a, b) = r.split_at(cut(r));
        v.push(a);
        r = b;
    }
    v.push(r);
    v
}
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let ps = outside(|| pieces(text(self.0), num(self.0, self.1)));
        let mut r = Ok(());
        for p in &ps {
            hit(F, self.0, self.1);
            r = r.and_then(|_| f.write_str(p));
        }
        outside(|| drop(ps));
        r
    }
}
pub fn d_(id: u32, ix: u32) -> D {
    hit(E, id, ix);
    born(id);
    D(id, ix)
}

/// An iterator over indices that reports being asked.
pub struct It(u32, u32, u32, u32);
impl Drop for It {
    fn drop(&mut self) {
        died(self.0)
    }
}
pub const ITEMS: u64 = 4;
impl Iterator for It {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        hit(N, self.0, self.1);
        // an iterator that could go on after its end
        self.3 += 1;
        if self.3 == self.2 + 1 {
            return None;
        }
        Some(self.1 * 5 + self.3)
    }
}
pub fn it_(id: u32, ix: u32) -> It {
    hit(E, id, ix);
    born(id);
    It(id, ix, items(num(id, ix)), 0)
}
pub fn enter_(id: u32) {
    hit(I, id, 0)
}

/// Plain sequencing without any of the library's macros.
pub struct Seq2<A, B>(pub A, pub B);
impl<A: Render, B: Render> Render for Seq2<A, B> {
    fn render(self, b: &mut Buffer) {
        let Seq2(x, y) = self;
        x.render(b);
        y.render(b);
    }
}

/// Render, render to a string, or abandon.
pub fn go<T: Render>(t: T, b: &mut Buffer, mode: u8) -> Option<String> {
    match mode {
        0 => {
            t.render(b);
            None
        }
        1 => Some(laby::render!(t)),
        _ => None,
    }
}
pub const KSTR: &str = "k<&>";
