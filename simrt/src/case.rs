//! Cases and their text form.
use crate::rng::{hash_bytes, mix};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub k: u16,
    pub a: [i64; 4],
    pub s: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    pub world: u8,
    pub cfg: Vec<(&'static str, i64)>,
    pub ops: Vec<Op>,
    /// (kind, when, argument)
    pub faults: Vec<(u16, i64, i64)>,
    pub slices: Vec<(u16, u32)>,
}

impl Case {
    pub fn get(&self, k: &str) -> i64 {
        self.cfg.iter().find(|x| x.0 == k).map_or(0, |x| x.1)
    }
    pub fn set(&mut self, k: &'static str, v: i64) {
        self.cfg.retain(|x| x.0 != k);
        if v != 0 {
            self.cfg.push((k, v));
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = self.world as u64 + 1;
        for (k, v) in &self.cfg {
            h = mix(hash_bytes(h, k.as_bytes()) ^ *v as u64);
        }
        for o in &self.ops {
            h = mix(h ^ o.k as u64);
            for x in o.a {
                h = mix(h ^ x as u64);
            }
            h = hash_bytes(h, o.s.as_bytes());
        }
        for f in &self.faults {
            h = mix(h ^ f.0 as u64 ^ mix(f.1 as u64) ^ (f.2 as u64).rotate_left(7));
        }
        for s in &self.slices {
            h = mix(h ^ s.0 as u64 ^ (s.1 as u64) << 20);
        }
        h
    }
}

/// What things are called in replay files.
pub trait Names {
    fn cfg_names(&self) -> &'static [&'static str];
    fn op_names(&self, world: u8) -> &'static [&'static str];
    fn fault_names(&self) -> &'static [&'static str];
}

fn hex(s: &str) -> String {
    let mut o = String::from("\"");
    for b in s.bytes() {
        if (b.is_ascii_graphic() || b == b' ') && b != b'"' && b != b'\\' {
            o.push(b as char);
        } else {
            o += &format!("\\x{b:02x}");
        }
    }
    o.push('"');
    o
}

fn unhex(s: &str) -> Option<String> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            o.push(u8::from_str_radix(s.get(i + 2..i + 4)?, 16).ok()?);
            i += 4;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}

/// A history as text.
pub fn encode(sys: &dyn Names, prop: &str, boot: i64, h: &[Case], head: &str) -> String {
    let mut o = format!("laby-sim-replay 1\nproperty {prop}\n{head}boot {boot}\n");
    for c in h {
        o += &format!("case {}\n", c.world);
        for (k, v) in &c.cfg {
            o += &format!("cfg {k} {v}\n");
        }
        let names = sys.op_names(c.world);
        for p in &c.ops {
            o += &format!("op {} {} {} {} {} {}\n", names[p.k as usize], p.a[0], p.a[1], p.a[2], p.a[3], hex(&p.s));
        }
        for f in &c.faults {
            o += &format!("fault {} {} {}\n", sys.fault_names()[f.0 as usize], f.1, f.2);
        }
        for s in &c.slices {
            o += &format!("slice {} {}\n", s.0, s.1);
        }
        o += "end\n";
    }
    o
}

pub fn decode(sys: &dyn Names, text: &str) -> Option<(String, i64, Vec<Case>)> {
    let mut prop = String::new();
    let mut boot = 0;
    let mut h = Vec::new();
    let mut c = Case::default();
    for l in text.lines() {
        let mut it = l.split_whitespace();
        match it.next() {
            Some("property") => prop = it.next()?.into(),
            Some("boot") => boot = it.next()?.parse().ok()?,
            Some("case") => c = Case { world: it.next()?.parse().ok()?, ..Case::default() },
            Some("cfg") => {
                let k = it.next()?;
                let k = sys.cfg_names().iter().find(|n| **n == k)?;
                c.cfg.push((k, it.next()?.parse().ok()?));
            }
            Some("op") => {
                let n = it.next()?;
                let k = sys.op_names(c.world).iter().position(|x| *x == n)? as u16;
                let mut a = [0; 4];
                for x in &mut a {
                    *x = it.next()?.parse().ok()?;
                }
                let at = l.find('"')?;
                c.ops.push(Op { k, a, s: unhex(&l[at..])? });
            }
            Some("fault") => {
                let n = it.next()?;
                let k = sys.fault_names().iter().position(|x| *x == n)? as u16;
                c.faults.push((k, it.next()?.parse().ok()?, it.next()?.parse().ok()?));
            }
            Some("slice") => c.slices.push((it.next()?.parse().ok()?, it.next()?.parse().ok()?)),
            Some("end") => h.push(std::mem::take(&mut c)),
            _ => {}
        }
    }
    Some((prop, boot, h))
}
