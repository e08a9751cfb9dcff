//! World 0 and 2: trees of values rendered by the real library, against an interpreter of the
//! same tree. User code inside the tree is the simulator's.
use laby::internal::{escape, escape_str, Buffer};
use laby::{Render, *};
use simrt::run::{count, Case, Op};
use simrt::{inject, outside, rng::mix, rng::Rng, sut, violate, Caught};
use std::borrow::Cow;
use std::cell::RefCell;
use std::fmt;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

macro_rules! kinds {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        #[repr(u16)]
        pub enum K { $($n),* }
        pub const NAMES: &[&str] = &[$(stringify!($n)),*];
        const ALL: &[K] = &[$(K::$n),*];
    };
}
kinds! {
    root, buf,
    unit, str_, char_, bool_, int, float, none, cow, raw, doctype, esc, escstr, shared, fmt,
    some, probe, iter, delim, lines, tmpl, user, catch_, nested,
    u_push_str, u_push, u_reserve, u_roundtrip, u_clone, u_write, u_add,
}
fn kind(o: &Op) -> K {
    ALL.get(o.k as usize).copied().unwrap_or(K::unit)
}

pub mod ev {
    pub const RENDER: u16 = 1;
    pub const PULL: u16 = 2;
    pub const PIECE: u16 = 3;
    pub const INTO: u16 = 4;
    pub const END: u16 = 5;
}

pub struct Node<'a> {
    pub op: &'a Op,
    pub id: u32,
    pub kids: Vec<Node<'a>>,
}

const MOST_KIDS: i64 = 600;
fn arity(o: &Op) -> usize {
    match kind(o) {
        K::some | K::probe | K::catch_ | K::nested => 1,
        K::iter | K::delim | K::lines | K::tmpl | K::user => o.a[0].clamp(0, MOST_KIDS) as usize,
        _ => 0,
    }
}

pub fn parse<'a>(ops: &'a [Op], at: &mut usize, depth: u32) -> Option<Node<'a>> {
    let o = ops.get(*at)?;
    if matches!(kind(o), K::root | K::buf) {
        return None;
    }
    let id = *at as u32;
    *at += 1;
    let mut kids = Vec::new();
    for _ in 0..arity(o) {
        if depth > 24 {
            break;
        }
        match parse(ops, at, depth + 1) {
            Some(n) => kids.push(n),
            None => break,
        }
    }
    Some(Node { op: o, id, kids })
}

/// Text living in the simulated heap, possibly away from the start of its block.
pub struct Text {
    owner: String,
    off: usize,
}
impl Text {
    fn new(s: &str, off: i64, spare: i64) -> Text {
        let off = off.clamp(0, 64) as usize;
        let mut t = "<&".repeat(off / 2);
        if off % 2 == 1 {
            t.push('"');
        }
        t.push_str(s);
        Text { owner: simrt::alloc::arena_string(&t, spare.clamp(0, 64) as usize), off }
    }
    fn get(&self) -> &str {
        &self.owner[self.off..]
    }
}

pub struct Tok(u32);
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.0;
        REAL.with(|r| {
            if let Ok(mut r) = r.try_borrow_mut() {
                if let Some(x) = r.tokens.iter_mut().find(|x| x.0 == id) {
                    x.1 += 1;
                }
            }
        });
    }
}
fn tok(id: u32) -> Tok {
    Tok(id)
}

/// What user code of the current thread observed.
#[derive(Default)]
pub struct Real {
    arrivals: i64,
    panics: Vec<i64>,
    log: Vec<(u16, u32)>,
    tokens: Vec<(u32, u32)>,
    shared: usize,
    fired: u64,
    oom_case: bool,
}
thread_local! {
    static REAL: RefCell<Real> = const { RefCell::new(Real { arrivals: 0, panics: Vec::new(), log: Vec::new(), tokens: Vec::new(), shared: 0, fired: 0, oom_case: false }) };
}

/// User code was entered.
fn hit(tag: u16, id: u32) {
    let boom = outside(|| {
        REAL.with(|r| {
            let mut r = r.borrow_mut();
            r.arrivals += 1;
            r.log.push((tag, id));
            if r.log.len() > 200_000 {
                violate!("runaway", "user code was entered more than 200000 times");
                simrt::die()
            }
            let n = r.arrivals;
            let b = r.panics.contains(&n);
            r.fired += b as u64;
            b
        })
    });
    if boom {
        inject(id)
    }
}

pub enum V {
    Unit,
    Str(Text, i64),
    Char(char),
    Bool(bool),
    Int(i64, i128, bool),
    F32(f32),
    F64(f64),
    None,
    Cow(Text, bool),
    Raw(Text, i64),
    Doc,
    Esc(Text),
    EscStr(Text),
    Shared(i64),
    Fmt(Pieces, i64),
    Some(H),
    Probe(Tok, u32, H),
    Iter(Src, i64),
    Delim(Text, Src, i64),
    Lines(Src),
    Tmpl(i64, Vec<H>),
    User(Tok, u32, Vec<H>),
    Catch(H),
    Nested(H),
    UPushStr(Text),
    UPush(char),
    UReserve(usize),
    URound,
    UClone,
    UWrite(Text),
    UAdd(Text),
}

pub struct H(Box<V>);
// Trees are built by one thread and rendered by another; nothing in them is tied to a thread.
unsafe impl Send for H {}

impl Render for H {
    fn render(self, buf: &mut Buffer) {
        render_v(*self.0, buf)
    }
}
impl Render for &H {
    fn render(self, _: &mut Buffer) {}
}

/// Ways to format.
const FMTS: u64 = 12;
#[derive(Clone)]
pub struct PieceText {
    text: String,
    cuts: u64,
    err: i64,
    id: u32,
}
impl PieceText {
    fn new(o: &Op, id: u32) -> PieceText {
        PieceText { text: o.s.clone(), cuts: o.a[0] as u64, err: o.a[1], id }
    }
    /// (piece, as single character)
    fn pieces(&self) -> Vec<(&str, bool)> {
        let mut v = vec![];
        let mut h = mix(self.cuts);
        let mut at = 0;
        while at < self.text.len() {
            let mut n = match h % 4 {
                0 => 1,
                1 => 1 + (h >> 8) as usize % 4,
                2 => 1 + (h >> 8) as usize % 40,
                _ => self.text.len(),
            };
            if self.cuts == 0 {
                n = self.text.len();
            }
            let mut end = (at + n).min(self.text.len());
            while !self.text.is_char_boundary(end) {
                end += 1;
            }
            let p = &self.text[at..end];
            v.push((p, p.chars().count() == 1 && h >> 20 & 1 == 1));
            at = end;
            h = mix(h);
        }
        v
    }
}
/// User formatting code: splits its text, may fail or panic between pieces.
pub struct Pieces(PieceText);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let ps = outside(|| self.0.pieces().len());
        for i in 0..ps {
            hit(ev::PIECE, self.0.id);
            if self.0.err == i as i64 + 1 {
                return Err(fmt::Error);
            }
            let (p, c) = outside(|| self.0.pieces()[i]);
            if c {
                fmt::Write::write_char(f, p.chars().next().unwrap())?;
            } else {
                f.write_str(p)?;
            }
        }
        hit(ev::END, self.0.id);
        if self.0.err == ps as i64 + 1 {
            return Err(fmt::Error);
        }
        Ok(())
    }
}
/// Formatting code that honours width and fill.
struct Padded<'a>(&'a PieceText);
impl fmt::Display for Padded<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad(&self.0.text)
    }
}

/// A source of items as user code writes them.
pub struct Src {
    id: u32,
    items: std::collections::VecDeque<H>,
    /// items before the source first reports its end
    before: usize,
    given: usize,
    ended: bool,
    hint: i64,
    feed: Option<(std::sync::mpsc::Sender<H>, std::sync::mpsc::Receiver<H>, u64)>,
    _tok: Tok,
}
impl Iterator for Src {
    type Item = H;
    fn next(&mut self) -> Option<H> {
        hit(ev::PULL, self.id);
        outside(|| {
            if let Some((tx, rx, plan)) = &mut self.feed {
                // the producers run between two pulls
                let k = *plan & 3;
                *plan >>= 2;
                if *plan == 0 {
                    *plan = u64::MAX;
                }
                for _ in 0..k {
                    if let Some(h) = self.items.pop_front() {
                        let _ = tx.send(h);
                    }
                }
                return rx.try_recv().ok();
            }
            if self.given >= self.before && !self.ended {
                self.ended = true;
                return None;
            }
            self.given += 1;
            self.items.pop_front()
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            1 => (0, None),
            2 => (usize::MAX, Some(usize::MAX)),
            3 => (0, Some(0)),
            4 => (1 << 20, None),
            _ => (self.items.len(), Some(self.items.len())),
        }
    }
}
struct LazySrc(Src);
impl IntoIterator for LazySrc {
    type Item = H;
    type IntoIter = Src;
    fn into_iter(self) -> Src {
        hit(ev::INTO, self.0.id);
        self.0
    }
}

fn src(n: &Node, spec: [i64; 3], r: &mut Vec<u32>) -> Src {
    let items: std::collections::VecDeque<H> = n.kids.iter().map(|k| build(k, r)).collect();
    let (before, feed) = match spec[0] {
        2 => ((spec[1].unsigned_abs() as usize) % (items.len() + 1), None),
        4 => {
            let (tx, rx) = std::sync::mpsc::channel();
            (0, Some((tx, rx, spec[1] as u64)))
        }
        _ => (items.len(), None),
    };
    r.push(n.id);
    Src { id: n.id, items, before, given: 0, ended: false, hint: spec[2] % 5, feed, _tok: tok(n.id) }
}
/// Items the source hands out before it first reports its end.
fn src_items<'x, 'a>(n: &'x Node<'a>, spec: [i64; 3]) -> &'x [Node<'a>] {
    let len = n.kids.len();
    match spec[0] {
        2 => &n.kids[..(spec[1].unsigned_abs() as usize) % (len + 1)],
        4 => {
            let (mut sent, mut got, mut plan) = (0usize, 0usize, spec[1] as u64);
            loop {
                sent = (sent + (plan & 3) as usize).min(len);
                plan >>= 2;
                if plan == 0 {
                    plan = u64::MAX;
                }
                if got == sent {
                    return &n.kids[..got];
                }
                got += 1;
            }
        }
        _ => &n.kids,
    }
}
fn spec(n: &Node) -> [i64; 3] {
    [n.op.a[1], n.op.a[2], n.op.a[3] & 7]
}

fn hole(v: V) -> H {
    H(Box::new(v))
}

fn build(n: &Node, r: &mut Vec<u32>) -> H {
    let o = n.op;
    let text = |o: &Op| Text::new(&o.s, o.a[2], o.a[3]);
    let mut kid = |i: usize, r: &mut Vec<u32>| n.kids.get(i).map_or_else(|| hole(V::Unit), |k| build(k, r));
    hole(match kind(o) {
        K::str_ => V::Str(text(o), o.a[0]),
        K::char_ => V::Char(ch(o)),
        K::bool_ => V::Bool(o.a[0] & 1 == 1),
        K::int => V::Int(o.a[0], wide(o), o.a[3] & 1 == 1),
        K::float => {
            if o.a[0] & 1 == 0 {
                V::F32(as_f32(o.a[1]))
            } else {
                V::F64(as_f64(o.a[1]))
            }
        }
        K::none => V::None,
        K::cow => V::Cow(text(o), o.a[0] & 1 == 1),
        K::raw => V::Raw(text(o), o.a[0]),
        K::doctype => V::Doc,
        K::esc => V::Esc(text(o)),
        K::escstr => V::EscStr(text(o)),
        K::shared => V::Shared(o.a[0]),
        K::fmt => V::Fmt(Pieces(PieceText::new(o, n.id)), o.a[2]),
        K::some => V::Some(kid(0, r)),
        K::probe => {
            r.push(n.id);
            V::Probe(tok(n.id), n.id, kid(0, r))
        }
        K::iter => V::Iter(src(n, spec(n), r), o.a[1]),
        K::delim => V::Delim(Text::new(&o.s, 0, 0), src(n, spec(n), r), o.a[1]),
        K::lines => V::Lines(src(n, spec(n), r)),
        K::tmpl => V::Tmpl(o.a[1], n.kids.iter().map(|k| build(k, r)).collect()),
        K::user => {
            r.push(n.id);
            V::User(tok(n.id), n.id, n.kids.iter().map(|k| build(k, r)).collect())
        }
        K::catch_ => V::Catch(kid(0, r)),
        K::nested => V::Nested(kid(0, r)),
        K::u_push_str => V::UPushStr(text(o)),
        K::u_push => V::UPush(ch(o)),
        K::u_reserve => V::UReserve(o.a[0].clamp(0, 1 << 16) as usize),
        K::u_roundtrip => V::URound,
        K::u_clone => V::UClone,
        K::u_write => V::UWrite(text(o)),
        K::u_add => V::UAdd(text(o)),
        _ => V::Unit,
    })
}

fn ch(o: &Op) -> char {
    char::from_u32(o.a[0] as u32).unwrap_or('\u{fffd}')
}
fn wide(o: &Op) -> i128 {
    ((o.a[2] as i128) << 64) | (o.a[1] as u64 as i128)
}

macro_rules! ints {
    ($f:ident, $t:expr, $v:expr, $nz:expr, $($i:literal $ty:ty, $nzt:ident);*) => {
        match $t { $($i => { let x = $v as $ty; $f!(x, $nz, $nzt) })* _ => { let x = $v as u8; $f!(x, $nz, NonZeroU8) } }
    };
}
macro_rules! all_ints {
    ($f:ident, $t:expr, $v:expr, $nz:expr) => {
        ints!($f, $t, $v, $nz,
            0 u8, NonZeroU8; 1 u16, NonZeroU16; 2 u32, NonZeroU32; 3 u64, NonZeroU64; 4 u128, NonZeroU128; 5 usize, NonZeroUsize;
            6 i8, NonZeroI8; 7 i16, NonZeroI16; 8 i32, NonZeroI32; 9 i64, NonZeroI64; 10 i128, NonZeroI128; 11 isize, NonZeroIsize)
    };
}

fn render_v(v: V, buf: &mut Buffer) {
    match v {
        V::Unit => ().render(buf),
        V::Str(t, k) => match k % 3 {
            0 => t.get().render(buf),
            1 if t.off == 0 => t.owner.render(buf),
            _ => Some(t.get()).render(buf),
        },
        V::Char(c) => c.render(buf),
        V::Bool(b) => b.render(buf),
        V::Int(t, x, nz) => {
            macro_rules! go {
                ($x:ident, $nz:expr, $n:ident) => {
                    match std::num::$n::new($x) {
                        Some(n) if $nz => n.render(buf),
                        _ => $x.render(buf),
                    }
                };
            }
            all_ints!(go, t, x, nz)
        }
        V::F32(x) => x.render(buf),
        V::F64(x) => x.render(buf),
        V::None => None::<H>.render(buf),
        V::Cow(t, owned) => {
            if owned && t.off == 0 {
                Cow::<str>::Owned(t.owner).render(buf)
            } else {
                Cow::Borrowed(t.get()).render(buf)
            }
        }
        V::Raw(t, k) => match k % 2 {
            0 => raw!(t.get()).render(buf),
            _ if t.off == 0 => raw!(t.owner).render(buf),
            _ => laby::RenderRaw(t.get()).render(buf),
        },
        V::Doc => laby::DocType::HTML5.render(buf),
        V::Esc(t) => escape(t.get(), buf),
        V::EscStr(t) => {
            let s = escape_str(t.get());
            buf.push_str(&s);
        }
        V::Shared(k) => {
            let p = REAL.with(|r| r.borrow().shared) as *const Buffer;
            if p.is_null() {
                return;
            }
            let b = unsafe { &*p };
            match k % 3 {
                0 => buf.push_str(b.as_str()),
                1 => escape(b.as_str(), buf),
                _ => {
                    let s = b.clone().into_string();
                    buf.push_str(&s);
                }
            }
        }
        V::Fmt(p, k) => match k as u64 % FMTS {
            0 => format_args!("{}", p).render(buf),
            1 => {
                #[allow(deprecated)]
                laby::disp!(p).render(buf)
            }
            2 => format_args!("<{0}|{1:>7}|{2:?}&", p, Padded(&p.0), '<').render(buf),
            3 => laby::RenderDisplay::from(p).render(buf),
            4 => format_args!("{0}{1:^+9.2}'{0}", p, 1.5f64).render(buf),
            // the program's own text, part of it as arguments
            5 => match k as u64 / FMTS {
                0 => format_args!("a < b").render(buf),
                1 => format_args!("<script>alert(\"1\") && '{{'</script> and some more text").render(buf),
                2 => format_args!("").render(buf),
                3 => format_args!("plain é漢").render(buf),
                _ => format_args!("{{\u{7f}>\0}}").render(buf),
            },
            6 => format_args!("{}<{}>{}{}", "&amp;", 7, '\'', true).render(buf),
            // formatted within
            7 => format_args!("[{}]", format_args!("<{}>{}", p, format_args!("\"{}\"", 1))).render(buf),
            // by the standard library's own formatting code
            8 => format_args!("{:?}", &p.0.text).render(buf),
            9 => format_args!("{:#?}{:>+5}", Some([&p.0.text[..], "<"]), 3).render(buf),
            10 => format_args!("{:'<1$}{:&^30.3}", p.0.text, 12).render(buf),
            _ => {
                let a = format_args!("<{}", p);
                #[allow(deprecated)]
                laby::disp!(a).render(buf);
            }
        },
        V::Some(h) => Some(h).render(buf),
        V::Probe(_t, id, h) => {
            hit(ev::RENDER, id);
            h.render(buf);
            hit(ev::END, id);
        }
        V::Iter(s, k) => match k {
            0 => {
                // a plain collection, moved out of the source
                let mut s = s;
                let items = outside(|| std::mem::take(&mut s.items).into_iter());
                iter!(items).render(buf)
            }
            5 => iter!(LazySrc(s)).render(buf),
            _ => iter!(s).render(buf),
        },
        V::Delim(d, s, k) => match k {
            0 => {
                let mut s = s;
                let items = outside(|| std::mem::take(&mut s.items).into_iter());
                iter!(d.get(), items).render(buf)
            }
            5 => iter!(d.owner, LazySrc(s)).render(buf),
            _ => iter!(d.get(), s).render(buf),
        },
        V::Lines(s) => iter_lines!(s).render(buf),
        V::Tmpl(k, hs) => tmpl(k, hs, buf),
        V::User(_t, id, hs) => {
            hit(ev::RENDER, id);
            let mut it = hs.into_iter();
            while let Some(h) = it.next() {
                h.render(buf);
                hit(ev::PIECE, id);
            }
        }
        V::Catch(h) => {
            let m = simrt::mode();
            let tf = simrt::step::stepping();
            if let Err(p) = catch_unwind(AssertUnwindSafe(|| h.render(buf))) {
                if REAL.with(|r| r.borrow().oom_case) {
                    resume_unwind(p);
                }
                drop(p);
                count(cnt::CAUGHT, 1);
                simrt::set_mode(m);
                simrt::step::resume(tf);
            }
        }
        V::Nested(h) => {
            let s: String = laby::render!(h);
            buf.push_str(&s);
        }
        V::UPushStr(t) => buf.push_str(t.get()),
        V::UPush(c) => buf.push(c),
        V::UReserve(n) => buf.reserve(n),
        V::URound => {
            if !REAL.with(|r| r.borrow().oom_case) {
                let b = std::mem::take(buf);
                let s = b.into_string();
                *buf = Buffer::from(s);
            }
        }
        V::UClone => {
            if !REAL.with(|r| r.borrow().oom_case) {
                let c = buf.clone();
                *buf = c;
            }
        }
        V::UWrite(t) => {
            let _ = fmt::Write::write_fmt(buf, format_args!("{}={:04x}", t.get(), 0x2f));
        }
        V::UAdd(t) => *buf += t.get(),
    }
}

pub const NTMPL: i64 = 12;
fn tmpl(k: i64, hs: Vec<H>, buf: &mut Buffer) {
    let mut it = hs.into_iter();
    let mut h = || it.next().unwrap_or_else(|| outside(|| hole(V::Unit)));
    match k.rem_euclid(NTMPL) {
        0 => {
            let a = h();
            div!(a).render(buf)
        }
        1 => {
            let (a, b) = (h(), h());
            frag!(a, b).render(buf)
        }
        2 => {
            let (x, y) = (h(), h());
            a!(href = x, class = "l<", y).render(buf)
        }
        3 => {
            let (x, y) = (h(), h());
            ul!(li!(x), br!(), "lit<", li!(class = "&", y), ()).render(buf)
        }
        4 => {
            let (x, y, z) = (h(), h(), h());
            input!("type" = "text", value = x, disabled = bool!(true), checked = bool!(false), y = z).render(buf)
        }
        5 => {
            let (x, y) = (h(), h());
            p!(class = classes!(x, "mid", y), 7, 'c').render(buf)
        }
        6 => {
            let (x, y) = (h(), h());
            let inner = span!(x);
            div!(id = "v", inner, y).render(buf)
        }
        7 => {
            let (x, y) = (h(), h());
            frag!(laby::DocType::HTML5, html!(head!(title!(x)), body!(y))).render(buf)
        }
        8 => {
            let x = h();
            let on = true;
            option!(selected = bool!(on), value = 1.5, x).render(buf)
        }
        9 => {
            let (x, y) = (h(), h());
            // the value of an absent boolean attribute's name is not rendered
            let off = false;
            option!(x = bool!(off), title = y).render(buf)
        }
        10 => {
            let (x, y) = (h(), h());
            let sel = Some(y);
            frag_match!(match sel {
                Some(v) => b!(v, x),
                None => (),
            })
            .render(buf)
        }
        _ => {
            let (x, y, z) = (h(), h(), h());
            card!(title = x, foot = y, z, hr!()).render(buf)
        }
    }
}
#[laby::laby]
fn card(foot: impl Render, title: impl Render, #[default("d>")] extra: impl Render, #[rest] rest: impl Render) -> impl Render {
    section!(h1!(title), extra, main!(rest), foot)
}

// ------------------------------------------------------------------------------------------
// The reference interpreter.

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stop {
    Injected(u32),
    Panic,
}

#[derive(Default)]
struct Model {
    arrivals: i64,
    panics: Vec<i64>,
    log: Vec<(u16, u32)>,
    /// length of the outermost output at each arrival
    lens: Vec<usize>,
    out: Vec<String>,
    shared: String,
    oom_case: bool,
    /// user code asked for memory of its own
    allocs: bool,
    doc_bytes: usize,
}

pub fn esc(s: &str, o: &mut String) {
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#39;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            c => o.push(c),
        }
    }
}

/// Layout of a finite float from its shortest digits.
fn float(digits_e: String, small: bool) -> String {
    let (neg, s) = match digits_e.strip_prefix('-') {
        Some(s) => ("-", s),
        None => ("", &digits_e[..]),
    };
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let d: String = m.chars().filter(|c| *c != '.').collect();
    if d == "0" {
        return format!("{neg}0.0");
    }
    let n = d.len() as i32;
    let kk = e + 1; // position of the decimal point
    let k = kk - n;
    let (max, min) = if small { (13, -6) } else { (16, -5) };
    let body = if 0 <= k && kk <= max {
        format!("{d}{}.0", "0".repeat(k as usize))
    } else if 0 < kk && kk <= max {
        format!("{}.{}", &d[..kk as usize], &d[kk as usize..])
    } else if min < kk && kk <= 0 {
        format!("0.{}{d}", "0".repeat(-kk as usize))
    } else if n == 1 {
        format!("{d}e{}", kk - 1)
    } else {
        format!("{}.{}e{}", &d[..1], &d[1..], kk - 1)
    };
    format!("{neg}{body}")
}

/// Two shortest decimals can be equally close to a value (134402.125f32); which one is written is
/// not part of the property, so such values are stepped over.
fn tie(shortest: &str, exact: &str) -> bool {
    let digits = |s: &str| {
        let m: String = s.split('e').next().unwrap().chars().filter(|c| c.is_ascii_digit()).collect();
        m.trim_end_matches('0').to_string()
    };
    let (s, e) = (digits(shortest), digits(exact));
    e.len() == s.len() + 1 && e.ends_with('5')
}
/// Only a value `odd * 2^e` with a small `e` has a decimal expansion that can end in such a tie.
fn may_tie(mantissa: u64, e: i32) -> bool {
    let e = e + mantissa.trailing_zeros() as i32;
    (-60..=25).contains(&e)
}
pub fn as_f32(bits: i64) -> f32 {
    let mut b = bits as u32;
    loop {
        let x = f32::from_bits(b);
        let (m, e) = (b as u64 & 0x7f_ffff | 0x80_0000, (b >> 23 & 0xff) as i32 - 150);
        if !x.is_finite() || !may_tie(m, e) || !tie(&format!("{x:e}"), &format!("{x:.150e}")) {
            return x;
        }
        b ^= 1;
        if b & 1 == bits as u32 & 1 {
            b = b.wrapping_add(2);
        }
    }
}
pub fn as_f64(bits: i64) -> f64 {
    let mut b = bits as u64;
    loop {
        let x = f64::from_bits(b);
        let (m, e) = (b & 0xf_ffff_ffff_ffff | 1 << 52, (b >> 52 & 0x7ff) as i32 - 1075);
        if !x.is_finite() || !may_tie(m, e) || !tie(&format!("{x:e}"), &format!("{x:.150e}")) {
            return x;
        }
        b ^= 1;
        if b & 1 == bits as u64 & 1 {
            b = b.wrapping_add(2);
        }
    }
}

pub fn f32_text(x: f32) -> String {
    if x.is_nan() {
        "NaN".into()
    } else if x.is_infinite() {
        if x > 0.0 { "inf" } else { "-inf" }.into()
    } else {
        float(format!("{x:e}"), true)
    }
}
pub fn f64_text(x: f64) -> String {
    if x.is_nan() {
        "NaN".into()
    } else if x.is_infinite() {
        if x > 0.0 { "inf" } else { "-inf" }.into()
    } else {
        float(format!("{x:e}"), false)
    }
}

impl Model {
    fn hit(&mut self, tag: u16, id: u32) -> Result<(), Stop> {
        self.arrivals += 1;
        self.log.push((tag, id));
        let l = self.out[0].len();
        self.lens.push(l);
        if self.panics.contains(&self.arrivals) {
            return Err(Stop::Injected(id));
        }
        Ok(())
    }
    fn push(&mut self, s: &str) {
        self.doc_bytes += s.len();
        self.out.last_mut().unwrap().push_str(s);
    }
    fn esc(&mut self, s: &str) {
        self.doc_bytes += s.len();
        esc(s, self.out.last_mut().unwrap());
    }
    fn pieces(&mut self, p: &PieceText) -> Result<(), Stop> {
        let ps = p.pieces();
        for (i, (t, _)) in ps.iter().enumerate() {
            self.hit(ev::PIECE, p.id)?;
            if p.err == i as i64 + 1 {
                return Err(Stop::Panic);
            }
            self.esc(t);
        }
        self.hit(ev::END, p.id)?;
        if p.err == ps.len() as i64 + 1 {
            return Err(Stop::Panic);
        }
        Ok(())
    }
    fn items(&mut self, n: &Node, del: Option<&str>) -> Result<(), Stop> {
        let kind = n.op.a[1];
        if kind == 5 && n.op.k != K::lines as u16 {
            self.hit(ev::INTO, n.id)?;
        }
        let pulls = kind != 0 || n.op.k == K::lines as u16;
        for (i, k) in src_items(n, spec(n)).iter().enumerate() {
            if pulls {
                self.hit(ev::PULL, n.id)?;
            }
            if i > 0 {
                if let Some(d) = del {
                    self.push(d);
                }
            }
            self.node(k)?;
        }
        if pulls {
            self.hit(ev::PULL, n.id)?;
        }
        Ok(())
    }
    fn node(&mut self, n: &Node) -> Result<(), Stop> {
        let o = n.op;
        match kind(o) {
            K::str_ | K::cow | K::esc => self.esc(&o.s),
            K::escstr => {
                self.allocs = true;
                self.esc(&o.s)
            }
            K::char_ => self.esc(ch(o).encode_utf8(&mut [0; 4])),
            K::bool_ => self.push(if o.a[0] & 1 == 1 { "true" } else { "false" }),
            K::int => {
                macro_rules! text {
                    ($x:ident, $nz:expr, $n:ident) => {
                        $x.to_string()
                    };
                }
                let s = all_ints!(text, o.a[0], wide(o), false);
                self.push(&s);
            }
            K::float => {
                let s = if o.a[0] & 1 == 0 { f32_text(as_f32(o.a[1])) } else { f64_text(as_f64(o.a[1])) };
                self.push(&s);
            }
            K::raw | K::u_push_str | K::u_add => self.push(&o.s),
            K::doctype => self.push("<!DOCTYPE html>"),
            K::shared => {
                let s = self.shared.clone();
                match o.a[0] % 3 {
                    0 => self.push(&s),
                    1 => self.esc(&s),
                    _ => {
                        self.allocs = true;
                        self.push(&s)
                    }
                }
            }
            K::fmt => {
                let p = PieceText::new(o, n.id);
                match o.a[2] as u64 % FMTS {
                    0 | 1 | 3 => self.pieces(&p)?,
                    2 => {
                        self.esc("<");
                        self.pieces(&p)?;
                        let rest = format!("|{:>7}|{:?}&", Padded(&p), '<');
                        self.esc(&rest);
                    }
                    4 => {
                        self.pieces(&p)?;
                        let mid = format!("{:^+9.2}'", 1.5f64);
                        self.esc(&mid);
                        self.pieces(&p)?;
                    }
                    5 => self.esc(match o.a[2] as u64 / FMTS {
                        0 => "a < b",
                        1 => "<script>alert(\"1\") && '{'</script> and some more text",
                        2 => "",
                        3 => "plain é漢",
                        _ => "{\u{7f}>\0}",
                    }),
                    6 => self.esc("&amp;<7>'true"),
                    7 => {
                        self.esc("[<");
                        self.pieces(&p)?;
                        self.esc(">\"1\"]");
                    }
                    8 => self.esc(&format!("{:?}", p.text)),
                    9 => self.esc(&format!("{:#?}   +3", Some([&p.text[..], "<"]))),
                    10 => self.esc(&format!("{:'<1$}{:&^30.3}", p.text, 12)),
                    _ => {
                        self.esc("<");
                        self.pieces(&p)?;
                    }
                }
            }
            K::some => {
                if let Some(k) = n.kids.first() {
                    self.node(k)?;
                }
            }
            K::probe => {
                self.hit(ev::RENDER, n.id)?;
                if let Some(k) = n.kids.first() {
                    self.node(k)?;
                }
                self.hit(ev::END, n.id)?;
            }
            K::iter => self.items(n, None)?,
            K::delim => self.items(n, Some(&o.s))?,
            K::lines => self.items(n, Some("\n"))?,
            K::tmpl => self.tmpl(n)?,
            K::user => {
                self.hit(ev::RENDER, n.id)?;
                for k in &n.kids {
                    self.node(k)?;
                    self.hit(ev::PIECE, n.id)?;
                }
            }
            K::catch_ => {
                if let Some(k) = n.kids.first() {
                    let depth = self.out.len();
                    let r = self.node(k);
                    self.out.truncate(depth);
                    if self.oom_case {
                        r?;
                    }
                }
            }
            K::nested => {
                self.allocs = true;
                self.out.push(String::new());
                if let Some(k) = n.kids.first() {
                    self.node(k)?;
                }
                let s = self.out.pop().unwrap();
                self.push(&s);
            }
            K::u_push => self.push(ch(o).encode_utf8(&mut [0; 4])),
            K::u_write => {
                self.push(&o.s);
                self.push("=002f");
            }
            K::u_reserve | K::u_roundtrip | K::u_clone => self.allocs = true,
            _ => {}
        }
        Ok(())
    }
    fn tmpl(&mut self, n: &Node) -> Result<(), Stop> {
        let h = |m: &mut Model, i: usize| n.kids.get(i).map_or(Ok(()), |k| m.node(k));
        match n.op.a[1].rem_euclid(NTMPL) {
            0 => {
                self.push("<div>");
                h(self, 0)?;
                self.push("</div>");
            }
            1 => {
                h(self, 0)?;
                h(self, 1)?;
            }
            2 => {
                self.push("<a href=\"");
                h(self, 0)?;
                self.push("\" class=\"l&lt;\">");
                h(self, 1)?;
                self.push("</a>");
            }
            3 => {
                self.push("<ul><li>");
                h(self, 0)?;
                self.push("</li><br>lit&lt;<li class=\"&amp;\">");
                h(self, 1)?;
                self.push("</li></ul>");
            }
            4 => {
                self.push("<input type=\"text\" value=\"");
                h(self, 0)?;
                self.push("\" disabled y=\"");
                h(self, 2)?;
                self.push("\">");
            }
            5 => {
                self.push("<p class=\"");
                h(self, 0)?;
                self.push(" mid ");
                h(self, 1)?;
                self.push("\">7c</p>");
            }
            6 => {
                self.push("<div id=\"v\"><span>");
                h(self, 0)?;
                self.push("</span>");
                h(self, 1)?;
                self.push("</div>");
            }
            7 => {
                self.push("<!DOCTYPE html><html><head><title>");
                h(self, 0)?;
                self.push("</title></head><body>");
                h(self, 1)?;
                self.push("</body></html>");
            }
            8 => {
                self.push("<option selected value=\"1.5\">");
                h(self, 0)?;
                self.push("</option>");
            }
            9 => {
                self.push("<option title=\"");
                h(self, 1)?;
                self.push("\"></option>");
            }
            10 => {
                self.push("<b>");
                h(self, 1)?;
                h(self, 0)?;
                self.push("</b>");
            }
            _ => {
                self.push("<section><h1>");
                h(self, 0)?;
                self.push("</h1>d&gt;<main>");
                h(self, 2)?;
                self.push("<hr></main>");
                h(self, 1)?;
                self.push("</section>");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 160 {
        let mut e = 80;
        while !s.is_char_boundary(e) {
            e += 1;
        }
        let mut f = s.len() - 60;
        while !s.is_char_boundary(f) {
            f += 1;
        }
        format!("{:?}..({} bytes)..{:?}", &s[..e], b.len(), &s[f..])
    } else {
        format!("{s:?}")
    }
}

pub mod cnt {
    pub const ROOTS: usize = 0;
    pub const PANICS: usize = 1;
    pub const CAUGHT: usize = 2;
    pub const OOM: usize = 3;
    pub const REQUESTS: usize = 4;
    pub const MOVED: usize = 5;
    pub const IN_PLACE: usize = 6;
    pub const FMT_ERR: usize = 7;
    pub const EVENTS: usize = 8;
    pub const BYTES: usize = 9;
    pub const STEPS: usize = 10;
    pub const SWITCHES: usize = 11;
    pub const CPUID: usize = 12;
    pub const ALLFAIL: usize = 13;
    pub const EARLY_END: usize = 14;
    pub const CHANNEL: usize = 15;
    pub const LIES: usize = 16;
    pub const THREADS: usize = 17;
    pub const HISTOPS: usize = 18;
    pub const HUGE: usize = 19;
    pub const UNWOUND: usize = 20;
    pub const FRESH: usize = 21;
    pub const HOPS: usize = 22;
    pub const REVOKED: usize = 23;
    pub const ABANDONED: usize = 24;
}
pub const COUNTERS: &[&str] = &[
    "roots_rendered",
    "injected_panics",
    "panics_caught_inside_a_render",
    "refused_allocations",
    "allocator_requests",
    "growths_that_moved",
    "growths_in_place",
    "formatter_errors",
    "user_code_entries",
    "output_bytes",
    "instructions_stepped",
    "thread_switches",
    "cpuid_queries_simulated",
    "renders_with_every_allocation_refused",
    "sources_that_yield_after_their_end",
    "channel_fed_sources",
    "lying_size_hints",
    "threads_run",
    "buffer_operations",
    "impossible_sizes",
    "unwound_allocation_failures",
    "first_use_processes",
    "moves_between_threads",
    "runs_with_freed_memory_revoked",
    "values_dropped_unrendered",
];

/// One thread's part of a case.
pub struct Part<'a> {
    roots: Vec<(&'a Op, Option<(Node<'a>, H)>)>,
    ids: Vec<u32>,
}
unsafe impl Send for Part<'_> {}

pub fn prepare<'a>(case: &'a Case, thread: i64, threads: i64) -> Part<'a> {
    let mut p = Part { roots: vec![], ids: vec![] };
    let mut i = 0;
    while i < case.ops.len() {
        let o = &case.ops[i];
        match kind(o) {
            K::root => {
                i += 1;
                let n = parse(&case.ops, &mut i, 0);
                if threads <= 1 || o.a[3].rem_euclid(threads) == thread {
                    let n = n.map(|n| {
                        let h = build(&n, &mut p.ids);
                        (n, h)
                    });
                    p.roots.push((o, n));
                }
            }
            K::buf => {
                if threads <= 1 || o.a[3].rem_euclid(threads) == thread {
                    p.roots.push((o, None));
                }
                i += 1;
            }
            _ => i += 1,
        }
    }
    p
}

/// Output of one thread, for the digest.
pub struct PartResult {
    pub digest: u64,
    pub events: u64,
}

pub struct Env {
    pub shared: usize,
    pub shared_text: String,
    pub oom: bool,
    /// check allocator request counts
    pub frugal: bool,
    pub stepped: bool,
}

pub fn run_part(case: &Case, part: Part, env: &Env, thread: i64) -> PartResult {
    let panics: Vec<i64> = outside(|| case.faults.iter().filter(|f| f.0 == 0 && f.2 == thread).map(|f| f.1).collect());
    let ids = outside(|| part.ids.clone());
    outside(|| {
        REAL.with(|r| {
            *r.borrow_mut() = Real {
                panics: panics.clone(),
                tokens: ids.iter().map(|i| (*i, 0)).collect(),
                shared: env.shared,
                oom_case: env.oom,
                ..Real::default()
            }
        })
    });
    let mut m = outside(|| Model { panics, out: vec![String::new()], shared: env.shared_text.clone(), oom_case: env.oom, ..Model::default() });
    let mut digest = 1u64;
    let mut buf = Buffer::new();
    let mut oom_left = env.oom;
    for (o, tree) in part.roots {
        if simrt::violated() {
            break;
        }
        if kind(o) == K::buf {
            let r = sut(|| match o.a[0] {
                0 => {
                    buf = Buffer::with_capacity(o.a[1].clamp(0, 1 << 18) as usize);
                    1
                }
                1 => {
                    // leave exactly a1 bytes of room
                    let room = buf.capacity() - buf.len();
                    let want = o.a[1].clamp(0, 64) as usize;
                    if room > want && room - want <= 70000 {
                        for _ in 0..room - want {
                            buf.push_str("<");
                        }
                        return 2 + (room - want);
                    }
                    0
                }
                2 => {
                    let s = std::mem::take(&mut buf).into_string();
                    buf = Buffer::from(s);
                    0
                }
                3 => {
                    buf.clear();
                    1
                }
                _ => {
                    let c = buf.clone();
                    buf = c;
                    0
                }
            });
            outside(|| match r {
                Ok(1) => m.out[0].clear(),
                Ok(n) => {
                    if n >= 2 {
                        let t = "<".repeat(n - 2);
                        m.out[0].push_str(&t);
                    }
                }
                Err(Caught::Oom(_)) if env.oom => {
                    // whatever survived is checked by the next root
                    let left = buf.as_str().to_string();
                    if !(left.is_empty() || m.out[0].starts_with(&left) || left.starts_with(&m.out[0][..])) {
                        violate!("lost-text", "after a refused allocation the output is {}", show(left.as_bytes()));
                    }
                    m.out[0] = left;
                    simrt::alloc::set_refusal(0, false);
                    oom_left = false;
                }
                Err(c) => violate!("unexpected-panic", "preparing the output failed: {c:?}"),
            });
            continue;
        }
        let Some((node, h)) = tree else { continue };
        outside(|| count(cnt::ROOTS, 1));
        let log0 = m.log.len();
        let before = m.out[0].len();
        let bytes0 = m.doc_bytes;
        m.allocs = false;
        let mode = o.a[0];
        let abandon = mode == 3;
        let (req0, cap0, len0) = (simrt::alloc::stats().requests, buf.capacity(), buf.len());

        // what should happen
        let want = outside(|| {
            if abandon {
                return Ok(());
            }
            if mode == 1 {
                m.out.push(String::new());
            }
            let r = m.node(&node);
            if mode == 1 {
                m.out.truncate(2);
            }
            r
        });
        let doc = m.doc_bytes - bytes0;
        let worst = doc * 6 + 128;
        // nothing may be requested when there is room for the worst case
        let ample = env.frugal && mode == 0 && !m.allocs && cap0 - len0 >= worst;
        if ample && o.a[2] & 1 == 1 && !env.oom {
            simrt::alloc::set_refusal(1, true);
            outside(|| count(cnt::ALLFAIL, 1));
        }

        // what happens
        let mut produced: Option<String> = None;
        let got = sut(|| match mode {
            1 => produced = Some(laby::render!(h)),
            3 => drop(h),
            _ => h.render(&mut buf),
        });
        let req = simrt::alloc::stats().requests - if ample && o.a[2] & 1 == 1 && !env.oom { 0 } else { req0 };
        if ample && o.a[2] & 1 == 1 && !env.oom {
            simrt::alloc::set_refusal(0, false);
        }

        let (rlog, arrivals) = REAL.with(|r| {
            let r = r.borrow();
            (r.log.len(), r.arrivals)
        });
        let mut dead = false;
        outside(|| {
            if abandon {
                count(cnt::ABANDONED, 1);
                if rlog != m.log.len() || buf.as_str() != m.out[0] {
                    violate!("rendered-without-render", "dropping an unrendered value ran user code or changed the output");
                }
                return;
            }
            let oom_hit = matches!(got, Err(Caught::Oom(_))) && oom_left;
            if oom_hit {
                count(cnt::OOM, 1);
                // a prefix of the document, at least everything before the last user code entered
                let real = buf.as_str().as_bytes().to_vec();
                let full = if mode == 1 { m.out[0].clone() } else { m.out[0].clone() };
                let low = if mode == 1 || rlog <= log0 { before } else { m.lens[(rlog - 1).min(m.lens.len() - 1)] };
                if std::str::from_utf8(&real).is_err() {
                    violate!("invalid-utf8", "output after a refused allocation: {}", show(&real));
                } else if !full.as_bytes().starts_with(&real) && real != full.as_bytes() {
                    violate!("corrupt-after-oom", "output {} is not a prefix of {}", show(&real), show(full.as_bytes()));
                } else if real.len() < low {
                    violate!("lost-text", "{} bytes were complete, {} are left", low, real.len());
                }
                REAL.with(|r| {
                    let r = r.borrow();
                    if rlog > m.log.len() || r.log[..] != m.log[..rlog] {
                        violate!("user-code-order", "user code ran differently from the reference before a refused allocation");
                    }
                });
                m.log.truncate(rlog);
                m.lens.truncate(rlog);
                m.arrivals = arrivals;
                m.out.truncate(1);
                m.out[0] = String::from_utf8_lossy(&real).into_owned();
                simrt::alloc::set_refusal(0, false);
                oom_left = false;
                return;
            }
            // user code entered in the same order
            REAL.with(|r| {
                let r = r.borrow();
                if r.log != m.log {
                    let i = r.log.iter().zip(&m.log).position(|(a, b)| a != b).unwrap_or(r.log.len().min(m.log.len()));
                    violate!(
                        "user-code-order",
                        "entry {} into user code: expected {:?}, got {:?} (event, node)",
                        i - log0.min(i),
                        m.log.get(i),
                        r.log.get(i)
                    );
                }
            });
            match (&want, &got) {
                (Ok(()), Ok(())) => {}
                (Err(Stop::Injected(a)), Err(Caught::Injected(b))) if a == b => count(cnt::PANICS, 1),
                (Err(Stop::Panic), Err(Caught::Panic(_))) => count(cnt::FMT_ERR, 1),
                (w, g) => {
                    if ample && o.a[2] & 1 == 1 && matches!(g, Err(Caught::Oom(_))) {
                        violate!("allocation-although-room", "a render into {} bytes of room asked the allocator for memory", cap0 - len0);
                    } else {
                        violate!("wrong-outcome", "expected {w:?}, got {g:?}");
                    }
                    dead = true;
                }
            }
            if mode == 1 {
                let exp = if m.out.len() > 1 { m.out.pop().unwrap() } else { String::new() };
                m.out.truncate(1);
                if want.is_ok() {
                    if produced.as_deref() != Some(&exp) {
                        violate!("wrong-output", "render! gave {} instead of {}", show(produced.as_deref().unwrap_or("nothing").as_bytes()), show(exp.as_bytes()));
                    }
                    digest = simrt::rng::hash_bytes(digest, exp.as_bytes());
                }
            }
            m.out.truncate(1);
            let exp = m.out[0].as_bytes();
            let real = buf.as_str().as_bytes();
            if real != exp {
                let i = real.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(real.len().min(exp.len()));
                if i < before {
                    violate!("earlier-output-changed", "byte {i} of {before} present before the render changed");
                } else {
                    violate!("wrong-output", "differs at byte {}: got {} instead of {}", i - before, show(&real[before.min(real.len())..]), show(&exp[before.min(exp.len())..]));
                }
            }
            digest = simrt::rng::hash_bytes(digest, exp);
            if env.frugal && !env.oom && !env.stepped && want.is_ok() && !m.allocs {
                let peak = (m.out[0].len() * 6 + 64).max(cap0).max(64) as u64;
                let bits = |n: u64| (64 - n.leading_zeros()) as u64;
                // any geometric growth of a third or more per step passes
                let bound = if mode == 1 { 4 + 5 * bits((doc * 6 + 64) as u64 / 16384) / 2 } else { 4 + 5 * bits(peak) / 2 };
                if ample && req > 0 {
                    violate!("allocation-although-room", "{req} allocator requests during a render into {} bytes of room", cap0 - len0);
                } else if req > bound {
                    violate!("too-many-allocations", "{req} allocator requests for {} bytes of output", m.out[0].len());
                }
            }
            let p = buf.as_mut_ptr() as usize;
            if buf.len() > buf.capacity() {
                violate!("capacity-lies", "length {} exceeds capacity {}", buf.len(), buf.capacity());
            } else if buf.capacity() > 0 && !simrt::alloc::holds(p, buf.capacity()) {
                violate!("capacity-lies", "capacity {} but the block has {:?} bytes", buf.capacity(), simrt::alloc::block_size(p));
            }
            simrt::run::state(mix(
                (len0 as u64).min(64) << 40 ^ ((cap0 - len0) as u64).min(96) << 20 ^ (node.op.k as u64) << 8 ^ want.is_err() as u64 ^ (o.a[0] as u64) << 5,
            ));
        });
        drop(produced);
        if dead {
            break;
        }
    }
    let (len1, cap1, req1) = (buf.len(), buf.capacity(), simrt::alloc::stats().requests);
    let alone = !simrt::step::stepping();
    let fin = sut(|| buf.into_string());
    outside(|| {
        let req = simrt::alloc::stats().requests - req1;
        if req > 0 && alone {
            violate!("allocation-on-conversion", "turning {len1} bytes of {cap1} bytes capacity into a string made {req} allocator requests");
        }
        match fin {
            Ok(s) => {
                if !simrt::violated() && s != m.out[0] {
                    violate!("wrong-output", "into_string gave {} instead of {}", show(s.as_bytes()), show(m.out[0].as_bytes()));
                }
                count(cnt::BYTES, s.len() as u64);
                drop(s);
            }
            Err(c) => violate!("unexpected-panic", "into_string failed: {c:?}"),
        }
        REAL.with(|r| {
            let r = r.borrow();
            if !simrt::violated() {
                if let Some(t) = r.tokens.iter().find(|t| t.1 != 1) {
                    violate!("drop-count", "the value of node {} was dropped {} times", t.0, t.1);
                }
            }
            count(cnt::EVENTS, r.log.len() as u64);
            digest = mix(digest ^ r.log.len() as u64);
            PartResult { digest, events: r.log.len() as u64 }
        })
    })
}

// ------------------------------------------------------------------------------------------
// Generation.

pub fn gen_len(r: &mut Rng, big: bool) -> usize {
    if big && !cfg!(miri) && r.chance(1, 1000) {
        return *r.pick(&[255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 100000, 140000]);
    }
    match r.below(if big { 12 } else { 10 }) {
        0 => 0,
        1..=3 => r.us(20),
        4 => *r.pick(&[15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65]),
        5..=7 => r.us(70),
        8 | 9 => r.us(140),
        10 => r.us(700),
        _ => r.us(6000),
    }
}
pub fn gen_str(r: &mut Rng, big: bool) -> String {
    let n = gen_len(r, big);
    text_of(r, n)
}
pub fn text_of(r: &mut Rng, n: usize) -> String {
    let density = *r.pick(&[0u64, 2, 10, 30, 60, 100]);
    let flavour = r.below(6);
    let mut s = String::new();
    let one = r.chance(1, 6).then(|| r.us(n.max(1)));
    // the longest expansion there is, or one kind of special character only
    let same = r.chance(1, 8).then(|| *r.pick(&['"', '"', '\'', '&', '<', '>']));
    let density = if same.is_some() && r.chance(1, 2) { 100 } else { density };
    while s.len() < n {
        let at = s.len();
        let special = match one {
            Some(k) => at == k,
            None => r.chance(density, 100),
        };
        if special {
            s.push(same.unwrap_or_else(|| *r.pick(&['&', '"', '\'', '<', '>'])));
            continue;
        }
        match flavour {
            0 | 1 => s.push((b'a' + r.below(26) as u8) as char),
            // one bit away from the specials
            2 => s.push(*r.pick(&['#', '%', '$', '!', '=', ';', '?', ':', 'g', 'f', 'b', '|', '~', '6', '7', ',', '.', '\u{2}', '\u{6}'])),
            3 => s.push(char::from(r.below(128) as u8)),
            4 => {
                let c = *r.pick(&['é', 'ß', '漢', '字', '😀', '\u{a2}', '\u{a6}', '\u{a7}', '\u{bc}', '\u{be}', '\u{10ffff}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}']);
                if s.len() + c.len_utf8() <= n {
                    s.push(c)
                } else {
                    s.push('z')
                }
            }
            _ => {
                let c = loop {
                    if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                        break c;
                    }
                };
                if s.len() + c.len_utf8() <= n {
                    s.push(c)
                } else {
                    s.push('y')
                }
            }
        }
    }
    s
}

fn weights(prop: &str) -> [u32; 32] {
    use K::*;
    let mut w = [0u32; 32];
    let all: &[(K, u32)] = &[
        (unit, 2), (str_, 14), (char_, 5), (bool_, 2), (int, 6), (float, 4), (none, 2), (cow, 5), (raw, 4), (doctype, 1), (esc, 4),
        (escstr, 2), (shared, 1), (fmt, 6), (some, 4), (probe, 6), (iter, 5), (delim, 5), (lines, 2), (tmpl, 9), (user, 6), (catch_, 4),
        (nested, 2), (u_push_str, 3), (u_push, 2), (u_reserve, 2), (u_roundtrip, 2), (u_clone, 2), (u_write, 2), (u_add, 1),
    ];
    let user_code: &[(K, u32)] = &[(probe, 5), (user, 8), (catch_, 4), (u_push_str, 5), (u_push, 3), (u_reserve, 2), (u_roundtrip, 1), (u_clone, 1)];
    let (kinds, more): (&[(K, u32)], &[(K, u32)]) = match prop {
        "C01" => (user_code, &[(str_, 50), (char_, 12), (esc, 30), (escstr, 12)]),
        "C03" => (user_code, &[(str_, 30), (esc, 20), (tmpl, 6), (int, 6), (float, 6), (fmt, 6), (char_, 5), (iter, 4)]),
        "C05" => (user_code, &[(u_write, 6), (u_add, 6), (u_push_str, 20), (u_push, 10), (u_reserve, 6), (u_roundtrip, 6), (u_clone, 6), (shared, 4)]),
        "C06" => (user_code, &[(str_, 20), (char_, 4), (esc, 10), (int, 8), (float, 8), (fmt, 5), (u_write, 5), (raw, 4), (escstr, 3), (nested, 3)]),
        "C07" => (
            &[],
            &[(unit, 2), (str_, 14), (char_, 5), (bool_, 3), (int, 8), (float, 6), (none, 2), (cow, 8), (raw, 8), (doctype, 2), (esc, 4), (fmt, 15), (some, 6),
              (probe, 3), (iter, 12), (delim, 12), (lines, 5), (tmpl, 30), (user, 4), (u_push_str, 3), (u_push, 2), (u_write, 2), (catch_, 2)],
        ),
        "C10" => (user_code, &[(iter, 50), (delim, 50), (lines, 20), (probe, 20), (u_push_str, 30), (str_, 6), (raw, 6), (none, 4)]),
        "C11" => (user_code, &[(fmt, 60)]),
        "C12" => (user_code, &[(int, 60), (float, 60), (bool_, 12)]),
        _ => (all, if prop == "C17" { &[(fmt, 20), (tmpl, 25), (catch_, 15), (cow, 12), (raw, 12), (some, 8), (delim, 9)] } else { &[] }),
    };
    for (k, x) in kinds.iter().chain(more) {
        w[*k as usize] = *x;
    }
    w
}

const CHARS: &[u32] = &[0, 9, 0x22, 0x26, 0x27, 0x3c, 0x3e, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff];

fn gen_node(r: &mut Rng, w: &[u32; 32], prop: &str, depth: u32, left: &mut i32, out: &mut Vec<Op>, big: bool) {
    *left -= 1;
    let mut k = ALL[r.weighted(w)];
    if (depth > 6 || *left <= 0) && matches!(k, K::some | K::probe | K::iter | K::delim | K::lines | K::tmpl | K::user | K::catch_ | K::nested) {
        let mut v = [0u32; 32];
        v.copy_from_slice(w);
        for c in [K::some, K::probe, K::iter, K::delim, K::lines, K::tmpl, K::user, K::catch_, K::nested] {
            v[c as usize] = 0;
        }
        k = ALL[r.weighted(&v)];
    }
    let mut o = Op { k: k as u16, ..Op::default() };
    let (mut kids, mut more) = (0usize, 0);
    match k {
        K::str_ | K::cow | K::raw | K::esc | K::escstr | K::u_push_str | K::u_write | K::u_add => {
            o.s = gen_str(r, big);
            o.a[0] = r.below(6) as i64;
            o.a[2] = if r.chance(1, 2) { 0 } else { r.below(33) as i64 };
            o.a[3] = if r.chance(1, 2) { 0 } else { r.below(17) as i64 };
        }
        K::char_ | K::u_push => {
            o.a[0] = if r.chance(1, 2) { *r.pick(CHARS) as i64 } else { r.below(0x110000) as i64 };
        }
        K::bool_ => o.a[0] = r.below(2) as i64,
        K::int => {
            o.a[0] = r.below(12) as i64;
            let v: i128 = match r.below(5) {
                0 => {
                    // neighbourhoods of powers of ten
                    let p = 10i128.pow(r.below(39) as u32);
                    p.wrapping_add(r.range(-2, 2) as i128)
                }
                1 => {
                    let p = 1i128.wrapping_shl(r.below(128) as u32);
                    p.wrapping_add(r.range(-2, 2) as i128)
                }
                2 => r.range(-300, 300) as i128,
                _ => {
                    let n = r.below(128) as u32;
                    let x = ((r.next() as u128) << 64 | r.next() as u128) >> n;
                    x as i128
                }
            };
            let v = if r.chance(1, 3) { v.wrapping_neg() } else { v };
            o.a[1] = v as u64 as i64;
            o.a[2] = (v >> 64) as i64;
            o.a[3] = r.below(2) as i64;
        }
        K::float => {
            o.a[0] = r.below(2) as i64;
            let f64_ = o.a[0] == 1;
            let bits = match r.below(6) {
                0 => r.next(),
                1 => {
                    // integers and short decimals
                    let x = r.log(1 << 54) as f64 / 10f64.powi(r.below(8) as i32);
                    if f64_ {
                        x.to_bits()
                    } else {
                        (x as f32).to_bits() as u64
                    }
                }
                2 => {
                    let x = 10f64.powi(r.range(-320, 308) as i32) * (1 + r.below(9)) as f64;
                    if f64_ {
                        x.to_bits()
                    } else {
                        (10f32.powi(r.range(-45, 38) as i32) * (1 + r.below(9)) as f32).to_bits() as u64
                    }
                }
                3 => {
                    let specials = [0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e16, 1e15, 123456789012345680.0, 1e-5, 1e-6, 0.1, 0.3, 2e-308, -2.2250738585072014e-308];
                    let x = *r.pick(&specials);
                    if f64_ {
                        x.to_bits()
                    } else {
                        (x as f32).to_bits() as u64
                    }
                }
                4 => {
                    if f64_ {
                        f64::NAN.to_bits() | r.next() >> 12 | (r.next() & 1) << 63
                    } else {
                        (f32::NAN.to_bits() | (r.next() as u32) >> 9 | (r.next() as u32 & 1) << 31) as u64
                    }
                }
                _ => {
                    let b = r.next();
                    if f64_ {
                        b & 0x800f_ffff_ffff_ffff | (r.below(2046) + 1) << 52
                    } else {
                        b & 0xffff_ffff
                    }
                }
            };
            o.a[1] = if f64_ { bits as i64 } else { bits as u32 as i64 };
        }
        K::shared => o.a[0] = r.below(3) as i64,
        K::fmt => {
            o.s = gen_str(r, big);
            o.a[0] = if r.chance(1, 5) { 0 } else { r.below(1 << 30) as i64 };
            if r.chance(1, 6) {
                o.a[1] = r.below(6) as i64;
            }
            o.a[2] = r.below(FMTS * 5) as i64;
        }
        K::some | K::probe | K::catch_ | K::nested => kids = 1,
        K::iter | K::delim | K::lines => {
            let most = if r.chance(1, 5) { 9 } else { 5 };
            kids = r.us(most);
            // more than a byte counts
            if big && !cfg!(miri) && r.chance(1, 150) {
                let n = *r.pick(&[63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 520]);
                kids = 0;
                o.a[0] = n;
                more = n as usize;
            }
            o.a[1] = *r.pick(&[0, 1, 1, 2, 2, 2, 4, 4, 5]);
            o.a[2] = match o.a[1] {
                2 => r.below(6) as i64,
                4 => (r.next() & 0xffff_ffff) as i64,
                _ => 0,
            };
            o.a[3] = r.below(5) as i64;
            if k == K::delim {
                o.s = match r.below(4) {
                    0 => ", ".into(),
                    1 => "<&>".into(),
                    2 => String::new(),
                    _ => gen_str(r, false),
                };
            }
        }
        K::tmpl => {
            o.a[1] = r.below(NTMPL as u64) as i64;
            kids = 3;
        }
        K::user => kids = 1 + r.us(4),
        K::u_reserve => o.a[0] = r.log(4096) as i64,
        _ => {}
    }
    if kids > 0 && arity(&o) == 0 {
        o.a[0] = kids as i64;
    }
    let at = out.len();
    out.push(o);
    for _ in 0..kids {
        gen_node(r, w, prop, depth + 1, left, out, big);
    }
    for _ in 0..more {
        let k = *r.pick(&[K::unit, K::none, K::int, K::str_, K::raw, K::bool_]);
        out.push(Op { k: k as u16, a: [if k == K::int { 3 } else { 0 }, r.below(12) as i64, 0, 0], s: String::new() });
        if matches!(k, K::str_ | K::raw) {
            out.last_mut().unwrap().s = text_of(r, 3);
        }
    }
    let _ = at;
}

/// A list of lists that grows the output piece by piece far beyond anything else here.
fn long_document(r: &mut Rng, out: &mut Vec<Op>) {
    let (k, n) = (*r.pick(&[K::raw, K::raw, K::str_, K::u_push_str]), 512 * (1 + r.us(3)));
    let s = if r.chance(1, 4) { "<" } else { "x" }.repeat(n);
    let list = |out: &mut Vec<Op>, n| out.push(Op { k: K::iter as u16, a: [n, 1, 0, 0], s: String::new() });
    list(out, 4);
    for _ in 0..4 {
        list(out, 64);
        for _ in 0..64 {
            out.push(Op { k: k as u16, s: s.clone(), ..Op::default() });
        }
    }
}

/// A random tree case.
pub fn gen(prop: &str, r: &mut Rng, threads: i64) -> Case {
    let mut c = Case { world: if threads > 0 { 2 } else { 0 }, ..Case::default() };
    c.set("place", r.below(3) as i64);
    c.set("grow", r.below(3) as i64);
    c.set("fill", r.below(6) as i64);
    c.set("revoke", (threads == 0 && r.chance(1, 16)) as i64);
    c.set("aseed", r.below(1 << 30) as i64);
    let mut w = weights(prop);
    // a random subset of kinds per run
    if r.chance(1, 3) {
        for x in w.iter_mut() {
            if r.chance(1, 3) {
                *x /= 8;
            }
        }
        if w[K::str_ as usize] == 0 {
            w[K::u_push_str as usize] += 1;
        }
    }
    // threads that do much the same collide more
    let alike = threads > 1 && r.chance(1, 2);
    if alike {
        for _ in 0..1 + r.below(3) {
            let k = r.us(w.len());
            w[k] *= 30;
        }
    }
    let small = threads > 0;
    let nroots = if small { threads + r.below(threads as u64 + 1) as i64 } else { 1 + r.below(4) as i64 };
    for i in 0..nroots {
        let th = if small { i % threads } else { 0 };
        if r.chance(2, 3) {
            let kind = if i < threads.max(1) { 0 } else { *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4]) };
            let mut n = match r.below(5) {
                0 => 0,
                1 => r.below(8) as i64,
                2 => r.below(200) as i64,
                3 => r.log(16384) as i64,
                _ => 16384,
            };
            if kind == 1 {
                n = r.below(50) as i64;
            }
            if prop == "C07" && kind == 0 && r.chance(2, 3) {
                n = 1 << 17;
            }
            c.ops.push(Op { k: K::buf as u16, a: [kind, n, 0, th], s: String::new() });
            if prop == "C12" && r.chance(1, 2) {
                // little room left
                c.ops.push(Op { k: K::buf as u16, a: [1, r.below(42) as i64, 0, th], s: String::new() });
            }
        }
        let mode = *r.pick(&[0, 0, 0, 0, 0, 0, 0, 1, 1, 3]);
        let refuse = r.chance(1, 2) as i64;
        c.ops.push(Op { k: K::root as u16, a: [mode, 0, refuse, th], s: String::new() });
        let mut left = if small { 1 + r.log(6) as i32 } else { 1 + r.log(40) as i32 };
        let big = !small && r.chance(1, 3);
        if prop == "C07" && !small && r.chance(1, 700) {
            long_document(r, &mut c.ops);
            continue;
        }
        gen_node(r, &w, prop, 0, &mut left, &mut c.ops, big);
    }
    if alike {
        let t = r.below(12) as i64;
        for o in c.ops.iter_mut().filter(|o| o.k == K::int as u16) {
            o.a[0] = t;
        }
    }
    // faults
    let calm = r.chance(1, 3);
    if !calm {
        let n = 1 + r.below(3);
        for _ in 0..n {
            let t = if small { r.below(threads as u64) as i64 } else { 0 };
            if r.chance(3, 4) {
                c.faults.push((0, r.log(24) as i64, t));
            }
        }
        let oom = match prop {
            "C02" | "C03" | "C07" | "C12" => false,
            "C04" | "C06" => r.chance(1, 2),
            _ => r.chance(1, 8),
        };
        if oom && !small {
            c.faults.push((1, r.log(12) as i64, r.below(2) as i64));
        }
    }
    c
}

/// Run a whole case; `stepped`: under the simulated scheduler and processor.
pub fn run(prop: &str, case: &Case, profile: u32) -> u64 {
    let stepped = case.world == 2;
    let threads = if stepped { case.get("threads").clamp(1, 6) } else { 1 };
    let oom = case.faults.iter().find(|f| f.0 == 1).copied();
    let cfg = simrt::alloc::AllocCfg {
        place: case.get("place") as u8,
        grow: case.get("grow") as u8,
        fill: case.get("fill") as u8,
        revoke: case.get("revoke") != 0,
        seed: case.get("aseed") as u64,
        ..Default::default()
    };
    simrt::alloc::begin_run(cfg);
    if cfg.revoke {
        count(cnt::REVOKED, 1);
    }
    for o in &case.ops {
        if matches!(kind(o), K::iter | K::delim | K::lines) {
            count(cnt::EARLY_END, (o.a[1] == 2) as u64);
            count(cnt::CHANNEL, (o.a[1] == 4) as u64);
            count(cnt::LIES, (o.a[1] != 0 && o.a[3] != 0) as u64);
        }
    }
    let shared_text = "shared <b>\u{e9}&\"".repeat(3);
    // the shared buffer comes from the simulated heap as well
    let m = simrt::set_mode(simrt::QUIET);
    let shared = Buffer::from(&shared_text[..]);
    simrt::set_mode(m);
    let env = Env {
        shared: &shared as *const Buffer as usize,
        shared_text,
        oom: oom.is_some(),
        frugal: matches!(prop, "C07" | "C08" | "C10" | "C11" | "C12"),
        stepped,
    };
    let parts: Vec<Part> = (0..threads).map(|t| prepare(case, t, threads)).collect();
    if let Some(f) = oom {
        simrt::alloc::set_refusal(f.1.max(1) as u64, f.2 != 0);
    }
    let mut digest = 0u64;
    if stepped {
        simrt::step::configure(profile, prop == "C03", 3_000_000);
        let bodies: Vec<Box<dyn FnOnce() -> PartResult + Send + '_>> = parts
            .into_iter()
            .enumerate()
            .map(|(t, p)| {
                let env = &env;
                Box::new(move || run_part(case, p, env, t as i64)) as Box<dyn FnOnce() -> PartResult + Send + '_>
            })
            .collect();
        let rs = simrt::sched::run(&case.slices, case.get("solo") != 0, bodies);
        for r in rs {
            digest = mix(digest ^ r.digest ^ r.events);
        }
        digest = mix(digest ^ simrt::step::steps());
        count(cnt::STEPS, simrt::step::steps());
        count(cnt::SWITCHES, simrt::sched::switches());
        count(cnt::CPUID, simrt::step::cpuids());
        count(cnt::THREADS, threads as u64);
        simrt::run::state(simrt::sched::trace());
    } else {
        for p in parts {
            let r = run_part(case, p, &env, 0);
            digest = mix(digest ^ r.digest ^ r.events);
        }
    }
    let text_same = shared.as_str() == env.shared_text;
    if !text_same {
        violate!("shared-changed", "a buffer that was only read changed");
    }
    drop(shared);
    let st = simrt::alloc::end_run(true);
    count(cnt::REQUESTS, st.requests);
    count(cnt::MOVED, st.moved);
    count(cnt::IN_PLACE, st.in_place);
    simrt::run::distinct(case.hash());
    mix(digest ^ st.requests ^ st.moved << 20)
}

/// The tree in readable form.
pub fn describe(case: &Case) -> String {
    let mut o = String::new();
    let names = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
    fn node(n: &Node, names: &[&str; 12], o: &mut String) {
        let k = NAMES[kind(n.op) as usize];
        let k = k.trim_end_matches('_');
        match kind(n.op) {
            K::int => *o += &format!("{} bits {:#x}", names[(n.op.a[0] as usize).min(11)], wide(n.op)),
            K::float => {
                *o += &if n.op.a[0] & 1 == 0 { format!("{}f32", as_f32(n.op.a[1])) } else { format!("{}f64", as_f64(n.op.a[1])) }
            }
            K::char_ | K::u_push => *o += &format!("{k} {:?}", ch(n.op)),
            _ => {
                *o += k;
                if !n.op.s.is_empty() || matches!(kind(n.op), K::str_) {
                    let s: String = n.op.s.chars().take(60).collect();
                    *o += &format!(" {s:?}{}", if s.len() < n.op.s.len() { ".." } else { "" });
                }
                if matches!(kind(n.op), K::iter | K::delim | K::lines) {
                    *o += match n.op.a[1] {
                        2 => " (yields again after its end)",
                        4 => " (fed by a channel)",
                        _ => "",
                    };
                }
                if kind(n.op) == K::tmpl {
                    *o += &format!("#{}", n.op.a[1].rem_euclid(NTMPL));
                }
            }
        }
        if !n.kids.is_empty() {
            *o += "(";
            for (i, k) in n.kids.iter().enumerate() {
                if i > 0 {
                    *o += ", ";
                }
                node(k, names, o);
            }
            *o += ")";
        }
    }
    let mut i = 0;
    while i < case.ops.len() {
        let op = &case.ops[i];
        match kind(op) {
            K::root => {
                i += 1;
                *(&mut o) += &format!("t{} {} ", op.a[3], ["render into output", "render!", "render into output", "drop unrendered"][(op.a[0] as usize).min(3)]);
                if let Some(n) = parse(&case.ops, &mut i, 0) {
                    node(&n, &names, &mut o);
                }
                o.push('\n');
            }
            K::buf => {
                i += 1;
                let what = ["new output with capacity", "fill the output leaving room", "output to string and back", "clear the output", "replace the output by its clone"];
                o += &format!("t{} {} {}\n", op.a[3], what[(op.a[0] as usize).min(4)], op.a[1]);
            }
            _ => i += 1,
        }
    }
    for f in &case.faults {
        o += &match f.0 {
            0 => format!("fault: user code of thread {} panics at entry {}\n", f.2, f.1),
            _ => format!("fault: allocator refuses request {}{}\n", f.1, if f.2 != 0 { " and all later ones" } else { "" }),
        };
    }
    if !case.slices.is_empty() {
        let s: Vec<String> = case.slices.iter().take(40).map(|s| format!("t{}x{}", s.0, s.1)).collect();
        o += &format!("schedule: {}{}\n", s.join(" "), if case.slices.len() > 40 { " .." } else { "" });
    }
    o
}
