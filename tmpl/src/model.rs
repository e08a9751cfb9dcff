//! The reference: what a template means.
use crate::probe::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum X {
    A(String),
    L(Vec<X>),
}
impl X {
    pub fn s(&self) -> &str {
        match self {
            X::A(s) => s,
            X::L(_) => panic!("atom expected: {self:?}"),
        }
    }
    pub fn l(&self) -> &[X] {
        match self {
            X::L(v) => v,
            X::A(_) => panic!("list expected: {self:?}"),
        }
    }
    fn u(&self) -> u32 {
        self.s().parse().unwrap_or_else(|_| panic!("number expected: {self:?}"))
    }
    fn nil(&self) -> bool {
        matches!(self, X::L(v) if v.is_empty())
    }
}
/// `(a 'hex (b))`
pub fn parse(t: &str) -> X {
    let mut st = vec![vec![]];
    for tok in t.replace('(', " ( ").replace(')', " ) ").split_whitespace() {
        match tok {
            "(" => st.push(vec![]),
            ")" => {
                let v = st.pop().unwrap();
                st.last_mut().unwrap().push(X::L(v));
            }
            _ => {
                let a = match tok.strip_prefix('\'') {
                    Some(h) => {
                        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[i * 2..i * 2 + 2], 16).unwrap()).collect();
                        String::from_utf8(b).unwrap()
                    }
                    None => tok.to_string(),
                };
                st.last_mut().unwrap().push(X::A(a));
            }
        }
    }
    st.pop().unwrap().pop().unwrap()
}

fn find_holes(x: &X, o: &mut Vec<u32>) {
    if let X::L(v) = x {
        if let Some(X::A(k)) = v.first() {
            if matches!(&k[..], "tq" | "aw" | "awc" | "p" | "o" | "s" | "g" | "w" | "c" | "n" | "l" | "d" | "raw" | "b" | "m" | "iter") {
                o.push(v[1].u());
                let n = if k == "iter" { 4 } else { 2 };
                if let (Some(X::A(_)), "raw" | "d" | "iter") = (v.get(n), &k[..]) {
                    o.push(v[n].u());
                }
            }
        }
        v.iter().for_each(|x| find_holes(x, o));
    }
}

/// Ended by a panic at an event, by leaving the function, or by being dropped while suspended.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Stop(pub i64);
pub const EXIT: i64 = -1;
pub const CANCEL: i64 = -2;

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o += "&amp;",
            '"' => o += "&quot;",
            '\'' => o += "&#39;",
            '<' => o += "&lt;",
            '>' => o += "&gt;",
            c => o.push(c),
        }
    }
    o
}

/// A value that is ready to be rendered.
#[derive(Clone)]
pub enum V {
    Nothing,
    Text(String),
    P(u32, u32),
    D(u32, u32),
    Seq(Vec<V>),
    Iter { id: u32, ix: u32, delim: Option<String>, body: Rc<X> },
}

pub struct Prog {
    pub root: Rc<X>,
    pub comps: Rc<Vec<X>>,
    /// rendered by `render!` with several arguments, whatever the mode
    pub multi: bool,
    /// holes in it
    pub holes: Vec<u32>,
    /// what happens before and after it is constructed
    pub before: Vec<X>,
    pub after: Vec<X>,
}
pub fn prog(t: &str) -> Prog {
    // (prog (comps...) root)
    let x = parse(t);
    let v = x.l();
    let mut holes = vec![DEFAULT_ID];
    find_holes(&x, &mut holes);
    holes.sort();
    holes.dedup();
    Prog { comps: Rc::new(v[1].l().to_vec()), root: Rc::new(v[2].clone()), multi: v[3].u() == 1, holes, before: v[4].l().to_vec(), after: v[5].l().to_vec() }
}

pub struct Model<'a> {
    pub vals: &'a [Val],
    pub panics: &'a [i64],
    /// What really happened, to follow it where the order is not specified.
    pub seen: &'a [Ev],
    pub log: Vec<Ev>,
    pub out: String,
    pub comps: Rc<Vec<X>>,
    /// how often it is polled before it is dropped
    pub polls: Option<u64>,
    pub suspended: u64,
}
type Res<T> = Result<T, Stop>;
type Env = HashMap<String, V>;

impl<'a> Model<'a> {
    pub fn new(vals: &'a [Val], panics: &'a [i64], seen: &'a [Ev], p: &Prog) -> Model<'a> {
        Model { vals, panics, seen, log: vec![], out: String::new(), comps: p.comps.clone(), polls: None, suspended: 0 }
    }
    /// Construct and render, or only construct.
    pub fn all(&mut self, p: &Prog, render: bool) -> Res<()> {
        if self.polls == Some(0) {
            return Err(Stop(CANCEL));
        }
        for x in &p.before {
            self.eval(x, 0, &mut Env::new())?;
        }
        let v = self.eval(&p.root, 0, &mut Env::new())?;
        for x in &p.after {
            self.eval(x, 0, &mut Env::new())?;
        }
        if render {
            self.render(v)?;
        }
        Ok(())
    }
    fn wait(&mut self, id: u32, ix: u32) -> Res<()> {
        for _ in 0..pends(self.n(id, ix)) {
            self.hit(A, id, ix)?;
            self.suspended += 1;
            if self.polls == Some(self.suspended) {
                return Err(Stop(CANCEL));
            }
        }
        self.hit(A, id, ix)
    }
    fn hit(&mut self, k: u8, id: u32, ix: u32) -> Res<()> {
        self.log.push((k, id, ix));
        let n = self.log.len() as i64;
        if self.log.len() > 200_000 || self.panics.contains(&n) {
            Err(Stop(n))
        } else {
            Ok(())
        }
    }
    fn n(&self, id: u32, ix: u32) -> u64 {
        number(self.vals.get(id as usize).map_or(0, |v| v.n), ix)
    }
    fn s(&self, id: u32) -> &'a str {
        self.vals.get(id as usize).map_or("", |v| &v.s)
    }

    /// The first things evaluating `x` may do, and whether it surely does any.
    fn first(&self, x: &X, ix: u32, o: &mut Vec<Ev>) -> bool {
        let v = x.l();
        match v[0].s() {
            "p" | "o" | "s" | "g" | "w" | "c" | "n" | "l" | "d" | "raw" | "b" | "m" => {
                o.push((E, v[1].u(), ix));
                true
            }
            "pdef" => {
                o.push((E, DEFAULT_ID, 0));
                true
            }
            "never" | "tq" | "cnt" => {
                o.push((E, v[1].u(), ix));
                true
            }
            "aw" | "awc" => {
                if !self.first(&v[2], ix, o) {
                    o.push((A, v[1].u(), ix));
                }
                true
            }
            "tr" => self.first(&v[1], ix, o),
            "lref" => false,
            "lit" | "unit" | "var" | "true" | "false" | "rep" => false,
            "fa" => v[1].l().iter().any(|x| self.first(x, ix, o)),
            "el" => v[3].l().iter().any(|a| self.first(a, ix, o)) || v[4].l().iter().any(|a| self.first(a, ix, o)),
            "frag" | "classes" => v[1].l().iter().any(|a| self.first(a, ix, o)),
            "rr" => v[2].l().iter().any(|a| self.first(a, ix, o)),
            "at" => self.first(&v[1], ix, o) || self.first(&v[2], ix, o),
            "bat" => {
                let a = self.first(&v[1], ix, o);
                let b = self.first(&v[2], ix, o);
                a || b
            }
            "same" | "stm" | "not" | "eq" => self.first(&v[1], ix, o),
            "and" | "or" => {
                self.first(&v[1], ix, o) || {
                    self.first(&v[2], ix, o);
                    false
                }
            }
            "iter" => {
                o.push((E, v[1].u(), ix));
                if !v[2].nil() {
                    self.first(&v[2], ix, o);
                }
                true
            }
            "match" => self.first(&v[1], ix, o),
            "if" => {
                for b in v[1].l() {
                    if self.first(&b.l()[0], ix, o) {
                        return true;
                    }
                    self.first(&b.l()[1], ix, o);
                }
                if !v[2].nil() {
                    self.first(&v[2], ix, o);
                }
                false
            }
            "iflet" => self.first(&v[1], ix, o),
            "chain" => v[1].l().iter().any(|c| self.first(c, ix, o)),
            "let" => self.first(&v[2], ix, o) || self.first(&v[3], ix, o),
            "call" => {
                let mut any = false;
                for a in self.bound(v) {
                    any |= self.first(&a.1, if a.2 { 0 } else { ix }, o);
                }
                if !any {
                    o.push((I, self.comps[v[1].u() as usize].l()[0].u(), 0));
                }
                true
            }
            k => panic!("first of {k}"),
        }
    }
    /// The parameters of a call with what is bound to them, and whether that is the default.
    fn bound(&self, v: &[X]) -> Vec<(String, X, bool)> {
        // comp: (id ((name kind default|())...) body); arg: (name x) or (x)
        let comp = self.comps[v[1].u() as usize].l();
        let args = v[2].l();
        comp[1]
            .l()
            .iter()
            .map(|p| {
                let p = p.l();
                let name = p[0].s();
                if p[1].s() == "rest" {
                    let kids: Vec<X> = args.iter().filter(|a| a.l().len() == 1).map(|a| a.l()[0].clone()).collect();
                    return (name.to_string(), X::L(vec![X::A("frag".into()), X::L(kids)]), false);
                }
                match args.iter().filter(|a| a.l().len() == 2 && a.l()[0].s() == name).last() {
                    Some(a) => (name.to_string(), a.l()[1].clone(), false),
                    None => (name.to_string(), p[2].clone(), true),
                }
            })
            .collect()
    }
    /// Which of `todo` may come next.
    fn next_ones(&self, firsts: &[(bool, Vec<Ev>)], todo: &[usize]) -> Vec<usize> {
        // what does nothing may be anywhere
        if let Some(i) = todo.iter().find(|i| !firsts[**i].0 && firsts[**i].1.is_empty()) {
            return vec![*i];
        }
        let next = self.seen.get(self.log.len());
        todo.iter().copied().filter(|i| !firsts[*i].0 || next.is_some_and(|n| firsts[*i].1.contains(n))).collect()
    }
    fn as_seen(&self, at: usize) -> bool {
        self.seen.get(at..self.log.len()).is_some_and(|s| *s == self.log[at..])
    }
    /// An order in which evaluating `todo` does what was seen.
    fn order(&mut self, xs: &[(X, u32)], firsts: &[(bool, Vec<Ev>)], todo: &[usize], env: &Env) -> Option<Vec<usize>> {
        if todo.is_empty() {
            return Some(vec![]);
        }
        for i in self.next_ones(firsts, todo) {
            let (at, susp) = (self.log.len(), self.suspended);
            let mut e = env.clone();
            let r = self.eval(&xs[i].0, xs[i].1, &mut e);
            let silent = r.is_ok() && self.log.len() == at;
            let mut res = None;
            if self.as_seen(at) {
                let rest: Vec<usize> = todo.iter().copied().filter(|j| *j != i).collect();
                res = if r.is_err() { Some(rest) } else { self.order(xs, firsts, &rest, &e) };
            }
            self.log.truncate(at);
            self.suspended = susp;
            if let Some(mut o) = res {
                o.insert(0, i);
                return Some(o);
            }
            if silent {
                // it does nothing at any other time either
                return None;
            }
        }
        None
    }
    /// Evaluate in the order seen.
    fn any_order(&mut self, xs: Vec<(X, u32)>, env: &mut Env) -> Res<Vec<V>> {
        let mut todo: Vec<usize> = (0..xs.len()).collect();
        let mut res: Vec<Option<V>> = xs.iter().map(|_| None).collect();
        // nothing seen, nothing to follow
        let mut plan: Option<Vec<usize>> = self.seen.is_empty().then(|| todo.clone());
        let mut firsts = vec![];
        if plan.is_none() {
            for x in &xs {
                let mut f = vec![];
                let sure = self.first(&x.0, x.1, &mut f);
                firsts.push((sure, f));
            }
        }
        while !todo.is_empty() {
            let i = match &mut plan {
                Some(p) => p.remove(0),
                None => {
                    let c = self.next_ones(&firsts, &todo);
                    if c.len() > 1 {
                        // several look alike at first
                        plan = Some(self.order(&xs, &firsts, &todo, env).unwrap_or(todo.clone()));
                        continue;
                    }
                    c.first().copied().unwrap_or(todo[0])
                }
            };
            todo.retain(|j| *j != i);
            res[i] = Some(self.eval(&xs[i].0, xs[i].1, env)?);
        }
        Ok(res.into_iter().map(|v| v.unwrap()).collect())
    }

    pub fn eval(&mut self, x: &X, ix: u32, env: &mut Env) -> Res<V> {
        let v = x.l();
        Ok(match v[0].s() {
            "lit" => V::Text(v[1].s().to_string()),
            "unit" => V::Nothing,
            "tq" => {
                self.hit(E, v[1].u(), ix)?;
                if self.n(v[1].u(), ix) & 1 == 0 {
                    return Err(Stop(EXIT));
                }
                V::P(v[1].u(), ix)
            }
            "cnt" => {
                self.hit(E, v[1].u(), ix)?;
                let n = match env.get("#") {
                    Some(V::Text(n)) => n.parse::<u32>().unwrap() + 1,
                    _ => 1,
                };
                env.insert("#".into(), V::Text(n.to_string()));
                V::Text(n.to_string())
            }
            "lref" => V::Text(esc(self.s(v[1].u()))),
            "tr" => {
                if self.cond(&v[1], ix)? {
                    return Err(Stop(EXIT));
                }
                self.eval(&v[2], ix, env)?
            }
            "aw" => {
                let x = self.eval(&v[2], ix, env)?;
                self.wait(v[1].u(), ix)?;
                x
            }
            "never" => {
                self.hit(E, v[1].u(), ix)?;
                return Err(Stop(self.log.len() as i64));
            }
            "p" => {
                self.hit(E, v[1].u(), ix)?;
                V::P(v[1].u(), ix)
            }
            "pdef" => {
                self.hit(E, DEFAULT_ID, 0)?;
                V::P(DEFAULT_ID, 0)
            }
            "o" => {
                self.hit(E, v[1].u(), ix)?;
                if self.n(v[1].u(), ix) & 1 == 1 {
                    V::P(v[1].u(), ix)
                } else {
                    V::Nothing
                }
            }
            "s" => {
                self.hit(E, v[1].u(), ix)?;
                V::Text(esc(self.s(v[1].u())))
            }
            "g" | "w" => {
                self.hit(E, v[1].u(), ix)?;
                V::Text(esc(self.s(v[1].u())))
            }
            "c" => {
                self.hit(E, v[1].u(), ix)?;
                V::Text(esc(&self.s(v[1].u()).chars().next().unwrap_or('<').to_string()))
            }
            "n" => {
                self.hit(E, v[1].u(), ix)?;
                V::Text((self.n(v[1].u(), ix) as u32).to_string())
            }
            "l" => {
                self.hit(E, v[1].u(), ix)?;
                V::Text((self.n(v[1].u(), ix) as i64).to_string())
            }
            "b" => V::Text(self.cond(x, ix)?.to_string()),
            "raw" => {
                self.hit(E, v[1].u(), ix)?;
                if v.len() > 2 {
                    self.wait(v[2].u(), ix)?;
                }
                V::Text(self.s(v[1].u()).to_string())
            }
            "d" => {
                self.hit(E, v[1].u(), ix)?;
                if v.len() > 2 {
                    self.wait(v[2].u(), ix)?;
                }
                V::D(v[1].u(), ix)
            }
            "fa" => {
                // format_args!: the pieces are put together before they are escaped
                let mut s = vec![];
                for a in v[1].l() {
                    if a.l()[0].s() == "rep" {
                        let again = match &s[a.l()[1].u() as usize] {
                            V::Text(t) => V::Text(t.clone()),
                            V::D(id, ix) => V::D(*id, *ix),
                            _ => unreachable!(),
                        };
                        s.push(again);
                        continue;
                    }
                    s.push(self.eval(a, ix, env)?);
                }
                V::Seq(s)
            }
            "el" => {
                // (el tag void attrs kids)
                let tag = v[1].s();
                let mut s = vec![];
                s.push(V::Text(format!("<{tag}")));
                for a in v[3].l() {
                    let a = a.l();
                    if a[0].s() == "at" {
                        s.push(V::Text(" ".into()));
                        s.push(self.eval(&a[1], ix, env)?);
                        s.push(V::Text("=\"".into()));
                        s.push(self.eval(&a[2], ix, env)?);
                        s.push(V::Text("\"".into()));
                    } else if a[2].l()[0].s() == "false" {
                        // a computed name of an attribute that is never there need not be computed
                        let mut f = vec![];
                        let cares = self.first(&a[1], ix, &mut f);
                        let next = self.seen.get(self.log.len());
                        if cares && next.is_some_and(|n| f.contains(n)) {
                            self.eval(&a[1], ix, env)?;
                        }
                    } else {
                        // name and condition in either order
                        let c = X::L(vec![X::A("cond".into()), a[2].clone()]);
                        let mut r = self.any_order2(&a[1], &c, ix, env)?;
                        if r.1 {
                            s.push(V::Text(" ".into()));
                            s.push(std::mem::replace(&mut r.0, V::Nothing));
                        }
                    }
                }
                s.push(V::Text(">".into()));
                for k in v[4].l() {
                    s.push(self.eval(k, ix, env)?);
                }
                if v[2].u() == 0 {
                    s.push(V::Text(format!("</{tag}>")));
                }
                V::Seq(s)
            }
            "frag" | "classes" => {
                let mut s = vec![];
                for (i, k) in v[1].l().iter().enumerate() {
                    if i > 0 && v[0].s() == "classes" {
                        s.push(V::Text(" ".into()));
                    }
                    s.push(self.eval(k, ix, env)?);
                }
                V::Seq(s)
            }
            "rr" => {
                // rendered at once, into a buffer of its own
                let mut s = vec![];
                for k in v[2].l() {
                    s.push(self.eval(k, ix, env)?);
                }
                let out = std::mem::take(&mut self.out);
                let r = self.render(V::Seq(s));
                let t = std::mem::replace(&mut self.out, out);
                r?;
                V::Text(if v[1].u() == 1 { esc(&t) } else { t })
            }
            "same" => self.eval(&v[1], ix, env)?,
            "stm" => {
                self.eval(&v[1], ix, env)?;
                self.eval(&v[2], ix, env)?
            }
            "var" => env.remove(v[1].s()).unwrap_or_else(|| panic!("no {}", v[1].s())),
            "let" => {
                let b = self.eval(&v[2], ix, env)?;
                env.insert(v[1].s().to_string(), b);
                self.eval(&v[3], ix, env)?
            }
            "iter" => {
                // (iter id delim body)
                let mut src = X::L(vec![X::A("s".into()), v[1].clone()]);
                if v.len() > 4 {
                    src = X::L(vec![X::A("aw".into()), v[4].clone(), src]);
                }
                let delim = match &v[2] {
                    d if d.nil() => {
                        self.eval(&src, ix, env)?;
                        None
                    }
                    d if d.l()[0].s() == "lit" => {
                        self.eval(&src, ix, env)?;
                        Some(d.l()[1].s().to_string())
                    }
                    d => {
                        self.any_order(vec![(src, ix), (d.clone(), ix)], env)?;
                        Some(self.s(d.l()[1].u()).to_string())
                    }
                };
                V::Iter { id: v[1].u(), ix, delim, body: Rc::new(v[3].clone()) }
            }
            "match" => {
                // (match scrutinee (arms)); arm: (pat guard body)
                let sv = v[1].l();
                let id = sv[1].u();
                self.hit(E, id, ix)?;
                let opt = sv[0].s() == "o";
                let n = self.n(id, ix);
                for arm in v[2].l() {
                    let arm = arm.l();
                    let pat = arm[0].l();
                    let ok = match pat[0].s() {
                        "any" | "bind" => true,
                        "some" => n & 1 == 1,
                        "none" => n & 1 == 0,
                        "in" => pat[1..].iter().any(|p| p.u() as u64 == n % ARMS),
                        k => panic!("pattern {k}"),
                    };
                    if !ok || (!arm[1].nil() && !self.binding(&arm[1], ix, env)?) {
                        continue;
                    }
                    match pat[0].s() {
                        "bind" => {
                            env.insert(pat[1].s().to_string(), V::Text((n % ARMS).to_string()));
                        }
                        "some" if pat.len() > 1 => {
                            env.insert(pat[1].s().to_string(), V::P(id, ix));
                        }
                        _ => {}
                    }
                    let _ = opt;
                    return self.eval(&arm[2], ix, env);
                }
                panic!("no arm")
            }
            "if" => {
                // (if ((cond body)...) else|())
                for b in v[1].l() {
                    let b = b.l();
                    if self.binding(&b[0], ix, env)? {
                        return self.eval(&b[1], ix, env);
                    }
                }
                if v[2].nil() {
                    V::Nothing
                } else {
                    self.eval(&v[2], ix, env)?
                }
            }
            "call" => {
                let comps = self.comps.clone();
                let comp = comps[v[1].u() as usize].l();
                let b = self.bound(v);
                let xs = b.iter().map(|(_, x, def)| (x.clone(), if *def { 0 } else { ix })).collect();
                let vs = self.any_order(xs, env)?;
                let mut inner: Env = b.into_iter().map(|p| p.0).zip(vs).collect();
                self.hit(I, comp[0].u(), 0)?;
                self.eval(&comp[2], 0, &mut inner)?
            }
            k => panic!("eval of {k}"),
        })
    }
    fn any_order2(&mut self, name: &X, cond: &X, ix: u32, env: &mut Env) -> Res<(V, bool)> {
        let c = &cond.l()[1];
        // following what was seen; by itself the name comes first, as written
        let (at, susp) = (self.log.len(), self.suspended);
        let mut cond_first = false;
        if at < self.seen.len() {
            let mut e = env.clone();
            if self.eval(name, ix, &mut e).is_ok() {
                let _ = self.cond(c, ix);
            }
            if !self.as_seen(at) {
                self.log.truncate(at);
                self.suspended = susp;
                let mut e = env.clone();
                if self.cond(c, ix).is_ok() {
                    let _ = self.eval(name, ix, &mut e);
                }
                cond_first = self.as_seen(at);
            }
            self.log.truncate(at);
            self.suspended = susp;
        }
        if cond_first {
            let b = self.cond(c, ix)?;
            Ok((self.eval(name, ix, env)?, b))
        } else {
            let n = self.eval(name, ix, env)?;
            Ok((n, self.cond(c, ix)?))
        }
    }
    /// A condition that may bind on its way.
    fn binding(&mut self, x: &X, ix: u32, env: &mut Env) -> Res<bool> {
        let c = x.l();
        match c[0].s() {
            "iflet" => {
                let id = c[1].l()[1].u();
                self.hit(E, id, ix)?;
                let some = self.n(id, ix) & 1 == 1;
                if some {
                    env.insert(c[2].s().to_string(), V::P(id, ix));
                }
                Ok(some)
            }
            "chain" => {
                for c in c[1].l() {
                    if !self.binding(c, ix, env)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            _ => self.cond(x, ix),
        }
    }
    fn cond(&mut self, x: &X, ix: u32) -> Res<bool> {
        let v = x.l();
        Ok(match v[0].s() {
            "true" => true,
            "false" => false,
            "b" => {
                self.hit(E, v[1].u(), ix)?;
                self.n(v[1].u(), ix) & 1 == 1
            }
            "awc" => {
                let x = self.cond(&v[2], ix)?;
                self.wait(v[1].u(), ix)?;
                x
            }
            "not" => !self.cond(&v[1], ix)?,
            "and" => self.cond(&v[1], ix)? && self.cond(&v[2], ix)?,
            "or" => self.cond(&v[1], ix)? || self.cond(&v[2], ix)?,
            "eq" => {
                let id = v[1].l()[1].u();
                self.hit(E, id, ix)?;
                self.n(id, ix) as u32 % 3 == v[2].u()
            }
            k => panic!("condition {k}"),
        })
    }

    pub fn render(&mut self, v: V) -> Res<()> {
        match v {
            V::Nothing => {}
            V::Text(s) => self.out += &s,
            V::Seq(v) => {
                for x in v {
                    self.render(x)?;
                }
            }
            V::P(id, ix) => {
                self.hit(R, id, ix)?;
                let s = self.s(id);
                let (a, b) = s.split_at(cut(s));
                let raw = self.n(id, 0) & 8 != 0;
                self.out += &if raw { a.to_string() } else { esc(a) };
                self.hit(M, id, ix)?;
                self.out += &if raw { b.to_string() } else { esc(b) };
            }
            V::D(id, ix) => {
                for p in pieces(self.s(id), self.n(id, ix)) {
                    self.hit(F, id, ix)?;
                    self.out += &esc(p);
                }
            }
            V::Iter { id, ix, delim, body } => {
                let n = items(self.n(id, ix));
                for j in 1..=n {
                    self.hit(N, id, ix)?;
                    if let (Some(d), true) = (&delim, j > 1) {
                        // the item is made before the delimiter is written, or after
                        self.out += "";
                        let d = d.clone();
                        let item = self.eval(&body, ix * 5 + j, &mut Env::new());
                        if item.is_ok() {
                            self.out += &d;
                        }
                        let item = item?;
                        self.render(item)?;
                    } else {
                        let item = self.eval(&body, ix * 5 + j, &mut Env::new())?;
                        self.render(item)?;
                    }
                }
                self.hit(N, id, ix)?;
            }
        }
        Ok(())
    }
}
