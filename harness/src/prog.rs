//! Programs for the link-and-run properties (C12, C19, C25): units of functions, data and custom
//! sections whose machine code is put together from a few templates, their encoding as calls on
//! artifacts, and an interpreter that says what the linked program computes.
//!
//! Registers: r14 accumulates what the program observes, r15 is fuel (a function entered with no
//! fuel left returns at once, so every program ends), rax is scratch.
use crate::drive::Mix;
use crate::spec::*;
use crate::tape::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    /// call to; rel: the link
    Call {
        to: String,
        rel: Rel,
    },
    /// the byte at off, by address
    ReadB {
        name: String,
        off: u32,
        import: bool,
    },
    /// the first eight bytes
    Read8 {
        name: String,
    },
    WriteB {
        name: String,
        off: u32,
        val: u8,
        import: bool,
    },
    /// call through a pointer held in data
    CallPtr {
        via: String,
        slot: u32,
    },
    /// the byte a pointer held in data points at, plus off
    ReadPtr {
        via: String,
        slot: u32,
        off: u32,
    },
    /// the low bits of the address
    Align {
        name: String,
        exp: u8,
    },
    /// the byte at k, by a raw PC-relative reference with an addend
    RawB {
        name: String,
        k: u32,
    },
    /// the same by a 64-bit or a 32-bit absolute address
    Abs64 {
        name: String,
        k: u32,
    },
    Abs32 {
        name: String,
        k: u32,
        typ: u32,
    },
    /// the byte at off, by the address in the global offset table
    GotB {
        name: String,
        off: u32,
    },
    GotCall {
        name: String,
    },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FnDef {
    pub name: String,
    pub d: D,
    pub konst: i32,
    pub pad: u8,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ptr {
    pub at: u32,
    pub to: String,
    pub rel: Rel,
}
impl Ptr {
    pub fn width(&self) -> u32 {
        match self.rel {
            Rel::Raw { reloc: 10 | 11, .. } | Rel::Debug { size: 4, .. } => 4,
            _ => 8,
        }
    }
    pub fn addend(&self) -> i64 {
        match self.rel {
            Rel::Raw { addend, .. } | Rel::Debug { addend, .. } => addend as i64,
            Rel::Auto => 0,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DataDef {
    pub name: String,
    pub d: D,
    pub body: Body,
    pub ptrs: Vec<Ptr>,
    pub syms: Vec<(String, u64)>,
}
impl DataDef {
    pub fn writable(&self) -> bool {
        match self.d {
            D::Data { w, .. } => w || self.body.is_zero(),
            D::Sec { kind, .. } => kind == SKind::Data,
            _ => false,
        }
    }
    /// the offset holds plain content
    pub fn plain(&self, off: u32, n: u32) -> bool {
        off as u64 + n as u64 <= self.body.mem_len()
            && self.ptrs.iter().all(|p| off + n <= p.at || off >= p.at + p.width())
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Unit {
    pub file: String,
    pub fns: Vec<FnDef>,
    pub datas: Vec<DataDef>,
    /// name, is it a function
    pub imports: Vec<(String, bool)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum At {
    Fn(usize, usize),
    Data(usize, usize),
    /// what the driver supplies: ext_f0, ext_f1 / ext_d0, ext_d1
    ExtF(usize),
    ExtD(usize),
    None,
}
pub const FUEL: i64 = 50;
pub const EXT_F: [i64; 2] = [77, 4242];
pub fn ext_d(i: usize) -> Vec<u8> {
    (0..16).map(|k| (100 + 40 * i + k) as u8).collect()
}

impl Unit {
    pub fn d(&self, name: &str) -> Option<D> {
        self.fns
            .iter()
            .find(|f| f.name == name)
            .map(|f| f.d)
            .or_else(|| self.datas.iter().find(|x| x.name == name).map(|x| x.d))
    }
    pub fn defs(&self) -> impl Iterator<Item = (&str, D)> {
        self.fns
            .iter()
            .map(|f| (f.name.as_str(), f.d))
            .chain(self.datas.iter().map(|x| (x.name.as_str(), x.d)))
    }
}
/// The definition each global name stands for: a global one, or else the first weak one.
pub fn winners(us: &[Unit]) -> BTreeMap<&str, usize> {
    let mut w: BTreeMap<&str, usize> = BTreeMap::new();
    for want in [Scope::Global, Scope::Weak] {
        for (i, u) in us.iter().enumerate() {
            for (n, d) in u.defs() {
                if !d.is_section() && d.scope() == want {
                    w.entry(n).or_insert(i);
                }
            }
        }
    }
    w
}
pub fn resolve(us: &[Unit], w: &BTreeMap<&str, usize>, u: usize, name: &str) -> At {
    let own = us[u].d(name);
    let home = match own {
        Some(d) if d.is_section() || d.scope() == Scope::Local => Some(u),
        _ => w.get(name).copied(),
    };
    if let Some(h) = home {
        if let Some(i) = us[h].fns.iter().position(|f| f.name == name) {
            return At::Fn(h, i);
        }
        if let Some(i) = us[h].datas.iter().position(|f| f.name == name) {
            return At::Data(h, i);
        }
    }
    match name {
        "ext_f0" => At::ExtF(0),
        "ext_f1" => At::ExtF(1),
        "ext_d0" => At::ExtD(0),
        "ext_d1" => At::ExtD(1),
        _ => At::None,
    }
}

// ------------------------------------------------------------------ encoding

impl FnDef {
    /// machine code, and the links it needs
    pub fn code(&self) -> (Vec<u8>, Vec<(u64, String, Rel)>) {
        let mut c: Vec<u8> = vec![0x49, 0xff, 0xcf, 0x0f, 0x88, 0, 0, 0, 0];
        let mut l = vec![];
        let mix = |c: &mut Vec<u8>| c.extend([0x4d, 0x6b, 0xf6, 0x21, 0x49, 0x01, 0xc6]);
        c.extend([0x4d, 0x6b, 0xf6, 0x21, 0x49, 0x81, 0xc6]);
        c.extend(self.konst.to_le_bytes());
        // rax = address of name
        let addr = |c: &mut Vec<u8>, l: &mut Vec<(u64, String, Rel)>, name: &str, import: bool| {
            c.extend([0x48, if import { 0x8b } else { 0x8d }, 0x05]);
            l.push((c.len() as u64, name.to_string(), Rel::Auto));
            c.extend([0; 4]);
        };
        for s in &self.steps {
            match s {
                Step::Call { to, rel } => {
                    c.push(0xe8);
                    l.push((c.len() as u64, to.clone(), *rel));
                    c.extend([0; 4]);
                }
                Step::ReadB { name, off, import } => {
                    addr(&mut c, &mut l, name, *import);
                    c.extend([0x0f, 0xb6, 0x80]);
                    c.extend(off.to_le_bytes());
                    mix(&mut c);
                }
                Step::Read8 { name } => {
                    c.extend([0x48, 0x8b, 0x05]);
                    l.push((c.len() as u64, name.clone(), Rel::Auto));
                    c.extend([0; 4]);
                    mix(&mut c);
                }
                Step::WriteB { name, off, val, import } => {
                    addr(&mut c, &mut l, name, *import);
                    c.extend([0xc6, 0x80]);
                    c.extend(off.to_le_bytes());
                    c.push(*val);
                }
                Step::CallPtr { via, slot } => {
                    addr(&mut c, &mut l, via, false);
                    c.extend([0xff, 0x90]);
                    c.extend(slot.to_le_bytes());
                }
                Step::ReadPtr { via, slot, off } => {
                    addr(&mut c, &mut l, via, false);
                    c.extend([0x48, 0x8b, 0x80]);
                    c.extend(slot.to_le_bytes());
                    c.extend([0x0f, 0xb6, 0x80]);
                    c.extend(off.to_le_bytes());
                    mix(&mut c);
                }
                Step::Align { name, exp } => {
                    addr(&mut c, &mut l, name, false);
                    c.push(0x25);
                    c.extend(((1u32 << exp) - 1).to_le_bytes());
                    mix(&mut c);
                }
                Step::RawB { name, k } => {
                    c.extend([0x0f, 0xb6, 0x05]);
                    let addend = *k as i32 - 4;
                    l.push((c.len() as u64, name.clone(), Rel::Raw { reloc: 2, addend }));
                    c.extend([0; 4]);
                    mix(&mut c);
                }
                Step::Abs64 { name, k } => {
                    c.extend([0x48, 0xb8]);
                    let addend = *k as i32;
                    l.push((c.len() as u64, name.clone(), Rel::Raw { reloc: 1, addend }));
                    c.extend([0; 8]);
                    c.extend([0x0f, 0xb6, 0x00]);
                    mix(&mut c);
                }
                Step::Abs32 { name, k, typ } => {
                    c.push(0xb8);
                    let addend = *k as i32;
                    l.push((c.len() as u64, name.clone(), Rel::Raw { reloc: *typ, addend }));
                    c.extend([0; 4]);
                    c.extend([0x0f, 0xb6, 0x00]);
                    mix(&mut c);
                }
                Step::GotB { name, off } => {
                    c.extend([0x48, 0x8b, 0x05]);
                    l.push((c.len() as u64, name.clone(), Rel::Raw { reloc: 9, addend: -4 }));
                    c.extend([0; 4]);
                    c.extend([0x0f, 0xb6, 0x80]);
                    c.extend(off.to_le_bytes());
                    mix(&mut c);
                }
                Step::GotCall { name } => {
                    c.extend([0x48, 0x8b, 0x05]);
                    l.push((c.len() as u64, name.clone(), Rel::Raw { reloc: 9, addend: -4 }));
                    c.extend([0; 4]);
                    c.extend([0xff, 0xd0]);
                }
            }
        }
        let end = c.len() as i32 - 9;
        c[5..9].copy_from_slice(&end.to_le_bytes());
        c.push(0xc3);
        c.extend(vec![0xcc; self.pad as usize]);
        (c, l)
    }
}
impl Unit {
    /// links, in order per source
    pub fn links(&self) -> Vec<(String, u64, String, Rel)> {
        let mut v = vec![];
        for f in &self.fns {
            for (at, to, rel) in f.code().1 {
                v.push((f.name.clone(), at, to, rel));
            }
        }
        for x in &self.datas {
            for p in &x.ptrs {
                v.push((x.name.clone(), p.at as u64, p.to.clone(), p.rel));
            }
        }
        v
    }
    /// The calls that describe this unit, in some legal order
    pub fn case(&self, target: &'static str, mix: &mut Mix) -> Case {
        let mut decls = vec![];
        let mut rest: Vec<Vec<Op>> = vec![];
        for (n, d) in self.defs() {
            // now and then an import that is upgraded later
            if mix.below(6) == 0 {
                let imp = match d {
                    D::Fn { .. } => Some(D::FnImport),
                    D::Data { .. } => Some(D::DataImport),
                    _ => None,
                };
                if let Some(i) = imp {
                    rest.push(vec![Op::Declare {
                        name: n.into(),
                        d,
                        style: mix.next() as u8,
                        api: 0,
                    }]);
                    decls.push(Op::Declare {
                        name: n.into(),
                        d: i,
                        style: 0,
                        api: mix.below(3) as u8,
                    });
                    continue;
                }
            }
            decls.push(Op::Declare {
                name: n.into(),
                d,
                style: mix.next() as u8,
                api: mix.below(3) as u8 & 2,
            });
            rest.push(vec![]);
        }
        for (n, f) in &self.imports {
            decls.push(Op::Declare {
                name: n.clone(),
                d: if *f { D::FnImport } else { D::DataImport },
                style: 0,
                api: mix.below(3) as u8,
            });
        }
        for i in (1..decls.len()).rev() {
            decls.swap(i, mix.below(i + 1));
        }
        let (mut i, mut links) = (0, self.links());
        for f in &self.fns {
            rest[i].push(Op::Define {
                name: f.name.clone(),
                body: Body::Raw(f.code().0),
                syms: vec![],
                api: 0,
            });
            i += 1;
        }
        for x in &self.datas {
            rest[i].push(Op::Define {
                name: x.name.clone(),
                body: x.body.clone(),
                syms: x.syms.clone(),
                api: mix.below(3) as u8,
            });
            i += 1;
        }
        // interleave: the declarations come first, then a definition's upgrade, links and body in
        // any order (a link out of something still an import is refused, so the upgrade first)
        for v in rest.iter_mut() {
            let name = match v.last() {
                Some(Op::Define { name, .. }) => name.clone(),
                _ => continue,
            };
            let mine: Vec<_> = links.iter().filter(|l| l.0 == name).cloned().collect();
            links.retain(|l| l.0 != name);
            let k = mix.below(mine.len() + 1);
            let def = v.pop().unwrap();
            let op = |l: &(String, u64, String, Rel)| Op::Link {
                from: l.0.clone(),
                to: l.2.clone(),
                at: l.1,
                rel: l.3,
            };
            v.extend(mine[..k].iter().map(op));
            v.push(def);
            v.extend(mine[k..].iter().map(op));
        }
        let mut ops = decls;
        while !rest.is_empty() {
            let i = mix.below(rest.len());
            if rest[i].is_empty() {
                rest.swap_remove(i);
                continue;
            }
            ops.push(rest[i].remove(0));
        }
        Case {
            target,
            name: self.file.clone(),
            ops,
        }
    }
}

// ------------------------------------------------------------------ interpreter

pub struct Interp<'a> {
    us: &'a [Unit],
    w: BTreeMap<&'a str, usize>,
    fuel: i64,
    pub acc: u64,
    written: BTreeMap<(At, u32), u8>,
    bodies: BTreeMap<At, Vec<u8>>,
    pub calls: u64,
}
impl<'a> Interp<'a> {
    pub fn new(us: &'a [Unit]) -> Self {
        Interp {
            us,
            w: winners(us),
            fuel: FUEL,
            acc: 0,
            written: BTreeMap::new(),
            bodies: BTreeMap::new(),
            calls: 0,
        }
    }
    pub fn run(&mut self, entry: &str) {
        let at = match self.w.get(entry) {
            Some(&u) => resolve(self.us, &self.w, u, entry),
            None => panic!("harness: no entry"),
        };
        self.call(at)
    }
    fn mix(&mut self, v: u64) {
        self.acc = self.acc.wrapping_mul(33).wrapping_add(v);
    }
    fn byte(&mut self, at: At, off: u32) -> u8 {
        if let Some(v) = self.written.get(&(at, off)) {
            return *v;
        }
        let us = self.us;
        let b = self.bodies.entry(at).or_insert_with(|| match at {
            At::Data(u, i) => us[u].datas[i].body.bytes(),
            At::ExtD(i) => ext_d(i),
            _ => panic!("harness: reading {at:?}"),
        });
        b.get(off as usize).copied().unwrap_or(0)
    }
    fn call(&mut self, at: At) {
        self.calls += 1;
        let (u, i) = match at {
            At::ExtF(i) => return self.mix(EXT_F[i] as u64),
            At::Fn(u, i) => (u, i),
            _ => panic!("harness: calling {at:?}"),
        };
        self.fuel -= 1;
        if self.fuel < 0 {
            return;
        }
        let us = self.us;
        let f = &us[u].fns[i];
        self.mix(f.konst as i64 as u64);
        for s in &f.steps {
            match s {
                Step::Call { to, .. } | Step::GotCall { name: to } => {
                    let t = resolve(us, &self.w, u, to);
                    self.call(t)
                }
                Step::ReadB { name, off, .. }
                | Step::GotB { name, off }
                | Step::RawB { name, k: off }
                | Step::Abs64 { name, k: off }
                | Step::Abs32 { name, k: off, .. } => {
                    let t = resolve(us, &self.w, u, name);
                    let v = self.byte(t, *off);
                    self.mix(v as u64)
                }
                Step::Read8 { name } => {
                    let t = resolve(us, &self.w, u, name);
                    let mut v = [0; 8];
                    for (k, x) in v.iter_mut().enumerate() {
                        *x = self.byte(t, k as u32);
                    }
                    self.mix(u64::from_le_bytes(v))
                }
                Step::WriteB { name, off, val, .. } => {
                    let t = resolve(us, &self.w, u, name);
                    self.written.insert((t, *off), *val);
                }
                Step::CallPtr { via, slot } => {
                    let (h, p) = self.ptr(u, via, *slot);
                    let t = resolve(us, &self.w, h, &p.to);
                    self.call(t)
                }
                Step::ReadPtr { via, slot, off } => {
                    let (h, p) = self.ptr(u, via, *slot);
                    let t = resolve(us, &self.w, h, &p.to);
                    let v = self.byte(t, (p.addend() + *off as i64) as u32);
                    self.mix(v as u64)
                }
                Step::Align { .. } => self.mix(0),
            }
        }
    }
    fn ptr(&self, u: usize, via: &str, slot: u32) -> (usize, &'a Ptr) {
        match resolve(self.us, &self.w, u, via) {
            At::Data(h, i) => (
                h,
                self.us[h].datas[i]
                    .ptrs
                    .iter()
                    .find(|p| p.at == slot)
                    .expect("harness: slot"),
            ),
            x => panic!("harness: pointer in {x:?}"),
        }
    }
}

// ------------------------------------------------------------------ generator

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub units: usize,
    /// position-independent: no absolute address outside writable data
    pub pic: bool,
    /// no direct reference to what another module could replace
    pub shared: bool,
    /// raw and debug links and custom sections (ELF)
    pub raw: bool,
    /// names several units know, each as it likes
    pub shared_names: bool,
    pub debug: bool,
    pub secs: bool,
    /// addends are where they are applied, so that is zero
    pub inplace: bool,
}
const STEMS: [&str; 8] = [
    "f",
    "g",
    "x",
    "a long name, with blanks ",
    "\u{e9}\u{df}",
    "_",
    "x.",
    "$",
];
const SHARED_F: [&str; 3] = ["sf0", "sf1", "sf2"];
const SHARED_D: [&str; 3] = ["sd0", "sd1", "sd2"];

fn align(r: &mut R) -> Option<u8> {
    match r.weighted(&[5, 4, 2, 1]) {
        0 => None,
        1 => Some(r.pick(6) as u8),
        2 => Some(r.pick(13) as u8),
        _ => Some(12 + r.pick(5) as u8),
    }
}
fn vis(r: &mut R) -> Vis {
    r.of(&[Vis::Default, Vis::Default, Vis::Protected, Vis::Hidden])
}
fn scope(r: &mut R) -> Scope {
    r.of(&[Scope::Global, Scope::Local, Scope::Weak])
}

/// Units whose rows come from the tape. Whether the set links at all is for the caller to see.
pub fn units(t: &Tape, cfg: Cfg) -> Vec<Unit> {
    let mut us: Vec<Unit> = (0..cfg.units)
        .map(|i| Unit {
            file: format!("unit{i}.o"),
            ..Unit::default()
        })
        .collect();
    let mut seeds: Vec<Vec<u64>> = vec![vec![]; cfg.units]; // per function
    let mut dseeds: Vec<Vec<u64>> = vec![vec![]; cfg.units];
    let debug = std::cell::Cell::new(false);
    for (n, row) in t.rows.iter().enumerate() {
        let mut r = R::new(row);
        let u = r.pick(cfg.units);
        let kind = r.weighted(&[
            5,
            5,
            3,
            if cfg.secs { 1 } else { 0 },
            if cfg.shared_names { 6 } else { 0 },
        ]);
        let stem = r.of(&STEMS);
        let uname = if cfg.units > 1 {
            format!("{stem}{n}u{u}")
        } else {
            format!("{stem}{n}")
        };
        let mut h = Mix::new(row.iter().fold(n as u64, |a, x| a.rotate_left(7) ^ *x as u64));
        match kind {
            0 => {
                us[u].fns.push(FnDef {
                    name: uname,
                    d: D::Fn {
                        scope: scope(&mut r),
                        vis: vis(&mut r),
                        align: align(&mut r),
                    },
                    konst: r.raw() as i32,
                    pad: r.pick(9) as u8,
                    steps: vec![],
                });
                seeds[u].push(h.next());
            }
            1 | 2 => {
                let zero = kind == 2;
                let s = !zero && r.chance(30);
                let w = zero || r.chance(50);
                let d = D::Data {
                    scope: scope(&mut r),
                    vis: vis(&mut r),
                    w: if zero && r.chance(30) { false } else { w },
                    s,
                    align: align(&mut r),
                };
                let body = if zero {
                    let e = r.pick(21);
                    Body::Zero((1u64 << e) + r.pick(9) as u64 - 1)
                } else {
                    let len = match r.weighted(&[1, 6, 2]) {
                        0 => r.pick(3),
                        1 => 4 + r.pick(60),
                        _ => r.pick(6000),
                    };
                    Body::Blob {
                        len: len as u32,
                        // equal strings are merged by a linker
                        seed: if s && r.chance(40) { r.pick(3) as u16 } else { r.raw() },
                        cstr: s,
                    }
                };
                us[u].datas.push(DataDef {
                    name: uname,
                    d,
                    body,
                    ptrs: vec![],
                    syms: vec![],
                });
                dseeds[u].push(h.next());
            }
            3 => {
                let kind = if cfg.debug && !debug.get() && r.chance(40) {
                    debug.set(true);
                    SKind::Debug
                } else {
                    r.of(&[SKind::Data, SKind::Text])
                };
                let len = 4 + r.pick(80);
                let syms = if r.chance(50) {
                    vec![(format!("cs{n}u{u}"), r.pick(len) as u64)]
                } else {
                    vec![]
                };
                us[u].datas.push(DataDef {
                    name: match kind {
                        SKind::Debug => ".debug_info".into(),
                        SKind::Data => format!(".cdata{n}u{u}"),
                        SKind::Text => format!("ctext{n}u{u}"),
                    },
                    d: D::Sec {
                        kind,
                        s: false,
                        align: align(&mut r),
                    },
                    body: Body::Blob {
                        len: len as u32,
                        seed: r.raw(),
                        cstr: false,
                    },
                    ptrs: vec![],
                    syms,
                });
                dseeds[u].push(h.next());
            }
            _ => {
                // a name several units know
                let f = r.chance(50);
                let name = if f { r.of(&SHARED_F) } else { r.of(&SHARED_D) };
                let role = r.weighted(&[3, 3, 3, 3]);
                let known = us[u].d(name).is_some() || us[u].imports.iter().any(|i| i.0 == name);
                if known {
                    continue;
                }
                // one visibility per name: how different ones combine is the linker's business
                let v = match (t.hdr[17] >> (2 * (name.as_bytes()[2] - b'0') + if f { 6 } else { 0 })) & 3 {
                    0 | 1 => Vis::Default,
                    2 => Vis::Protected,
                    _ => Vis::Hidden,
                };
                let sc = match role {
                    0 => {
                        us[u].imports.push((name.into(), f));
                        continue;
                    }
                    1 => Scope::Local,
                    2 => Scope::Global,
                    _ => Scope::Weak,
                };
                if f {
                    us[u].fns.push(FnDef {
                        name: name.into(),
                        d: D::Fn {
                            scope: sc,
                            vis: v,
                            align: align(&mut r),
                        },
                        konst: r.raw() as i32,
                        pad: r.pick(9) as u8,
                        steps: vec![],
                    });
                    seeds[u].push(h.next());
                } else {
                    us[u].datas.push(DataDef {
                        name: name.into(),
                        d: D::Data {
                            scope: sc,
                            vis: v,
                            w: true,
                            s: false,
                            align: align(&mut r),
                        },
                        body: if r.chance(25) {
                            Body::Zero(16)
                        } else {
                            Body::Blob {
                                len: 16,
                                seed: r.raw(),
                                cstr: false,
                            }
                        },
                        ptrs: vec![],
                        syms: vec![],
                    });
                    dseeds[u].push(h.next());
                }
            }
        }
    }
    // the strings a debug section refers to
    if debug.get() {
        let u = us
            .iter()
            .position(|u| u.datas.iter().any(|x| x.name == ".debug_info"))
            .unwrap();
        let mut b = vec![];
        for k in 0..4 {
            b.extend(format!("string {} {}", t.hdr[16] % 97, k * 7919 % 13).bytes());
            b.push(0);
        }
        us[u].datas.push(DataDef {
            name: ".debug_str".into(),
            d: D::Sec {
                kind: SKind::Debug,
                s: true,
                align: None,
            },
            body: Body::Raw(b),
            ptrs: vec![],
            syms: vec![],
        });
        dseeds[u].push(1);
    }
    // imports: from the driver, and the global names of other units
    let mut hm = Mix::of(&t.hdr);
    for u in 0..cfg.units {
        for e in ["ext_f0", "ext_f1", "ext_d0", "ext_d1"] {
            if hm.below(2) == 0 {
                us[u].imports.push((e.into(), e.starts_with("ext_f")));
            }
        }
    }
    if cfg.units > 1 {
        for u in 0..cfg.units {
            let mut add = vec![];
            for (v, o) in us.iter().enumerate() {
                for (n, d) in o.defs() {
                    let shared = SHARED_D.contains(&n) || SHARED_F.contains(&n);
                    if v != u && !shared && !d.is_section() && d.scope() != Scope::Local && hm.below(2) == 0 {
                        add.push((n.to_string(), matches!(d, D::Fn { .. })));
                    }
                }
            }
            us[u].imports.extend(add);
        }
    }
    fill(&mut us, cfg, &seeds, &dseeds);
    // the entry of each unit uses all the unit has; the first calls the others
    let w: BTreeMap<String, usize> = winners(&us).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    for u in 0..cfg.units {
        let mut steps = vec![];
        let fns: Vec<String> = us[u].fns.iter().map(|f| f.name.clone()).collect();
        for f in fns {
            steps.push(Step::Call { to: f, rel: Rel::Auto });
        }
        for k in 0..us[u].datas.len() + us[u].imports.len() {
            let mut m = Mix::new(7 + k as u64);
            steps.extend(step(&us, &w, u, cfg, &mut m, Some(k)));
        }
        // fuel stops the unit's functions, not its entry
        for k in 0..us[u].datas.len() {
            let mut m = Mix::new(77 + k as u64);
            steps.extend(step(&us, &w, u, cfg, &mut m, Some(k)));
        }
        us[u].fns.push(FnDef {
            name: if u == 0 { "entry".into() } else { format!("entry{u}") },
            d: D::Fn {
                scope: Scope::Global,
                vis: Vis::Default,
                align: None,
            },
            konst: u as i32,
            pad: 0,
            steps,
        });
    }
    for u in 1..cfg.units {
        us[0].imports.push((format!("entry{u}"), true));
        let rel = Rel::Auto;
        let to = format!("entry{u}");
        // before the others: they may use up the fuel
        us[0].fns.last_mut().unwrap().steps.insert(0, Step::Call { to, rel });
    }
    us
}

/// pointers and function bodies
fn fill(us: &mut Vec<Unit>, cfg: Cfg, seeds: &[Vec<u64>], dseeds: &[Vec<u64>]) {
    for u in 0..us.len() {
        for i in 0..us[u].datas.len() {
            let mut m = Mix::new(dseeds[u][i]);
            let x = &us[u].datas[i];
            if x.body.is_zero() || x.d.wants_cstr() || (cfg.pic && !x.writable() && x.name != ".debug_info") {
                continue;
            }
            let shared = SHARED_D.contains(&x.name.as_str());
            if shared {
                continue;
            }
            let len = x.body.mem_len() as u32;
            let mut at = m.below(9) as u32;
            let mut ptrs = vec![];
            let (sec, dbg) = (x.d.is_section(), x.name == ".debug_info");
            while at + 8 <= len && ptrs.len() < 4 && m.below(4) > 0 {
                let mut names: Vec<(String, D, u64)> = vec![];
                for (n, d) in us[u].defs() {
                    let dbg_to = n == ".debug_str";
                    if (d.is_section() && !cfg.raw) || (dbg_to && !dbg) || n == ".debug_info" {
                        continue;
                    }
                    let l = us[u].datas.iter().find(|x| x.name == n).map_or(0, |x| x.body.mem_len());
                    names.push((n.to_string(), d, l));
                }
                for (n, f) in &us[u].imports {
                    names.push((
                        n.clone(),
                        if *f { D::FnImport } else { D::DataImport },
                        if *f { 0 } else { 16 },
                    ));
                }
                if names.is_empty() {
                    break;
                }
                let (to, d, l) = names[m.below(names.len())].clone();
                let raw = cfg.raw && (sec || d.is_section() || m.below(4) == 0);
                let addend = if l > 0 && m.below(2) == 0 {
                    m.below(l.min(64) as usize) as i32
                } else {
                    0
                };
                if sec && !cfg.raw && d.is_section() {
                    break;
                }
                let rel = if sec && !cfg.raw {
                    Rel::Debug { size: 8, addend: 0 }
                } else if dbg {
                    let addend = if to == ".debug_str" {
                        // the start of a string
                        let b = us[u]
                            .datas
                            .iter()
                            .find(|x| x.name == ".debug_str")
                            .unwrap()
                            .body
                            .bytes();
                        let starts: Vec<usize> = std::iter::once(0)
                            .chain((1..b.len()).filter(|k| b[k - 1] == 0))
                            .collect();
                        starts[m.below(starts.len())] as i32
                    } else {
                        addend
                    };
                    Rel::Debug {
                        size: if cfg.pic || d.is_import() || m.below(2) == 0 {
                            8
                        } else {
                            4
                        },
                        addend,
                    }
                } else if raw {
                    Rel::Raw {
                        // 32 bits cannot hold the address of something in a shared library
                        reloc: if cfg.pic || d.is_import() || m.below(3) > 0 {
                            1
                        } else {
                            [10, 11][m.below(2)]
                        },
                        addend,
                    }
                } else {
                    Rel::Auto
                };
                let p = Ptr { at, to, rel };
                at += p.width() + m.below(20) as u32;
                ptrs.push(p);
            }
            // any order of linking
            if m.below(2) == 0 {
                ptrs.reverse();
            }
            if cfg.inplace && !ptrs.is_empty() {
                let mut b = us[u].datas[i].body.bytes();
                for p in &ptrs {
                    b[p.at as usize..(p.at + p.width()) as usize].fill(0);
                }
                us[u].datas[i].body = Body::Raw(b);
                // Mach-O linkers divide sections at symbols: none belongs inside a pointer
                us[u].datas[i]
                    .syms
                    .retain(|(_, o)| !ptrs.iter().any(|p| *o > p.at as u64 && *o < (p.at + p.width()) as u64));
            }
            us[u].datas[i].ptrs = ptrs;
        }
    }
    let w: BTreeMap<String, usize> = winners(us).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    for u in 0..us.len() {
        for i in 0..us[u].fns.len() {
            let mut m = Mix::new(seeds[u][i]);
            let n = m.below(7);
            let mut steps = vec![];
            for _ in 0..n {
                steps.extend(step(us, &w, u, cfg, &mut m, None));
            }
            us[u].fns[i].steps = steps;
        }
    }
}
/// A step for a function of unit u; `which`: about this data item or import
fn step(
    us: &[Unit],
    w: &BTreeMap<String, usize>,
    u: usize,
    cfg: Cfg,
    m: &mut Mix,
    which: Option<usize>,
) -> Option<Step> {
    let w: BTreeMap<&str, usize> = w.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    let mut names: Vec<(String, bool)> = us[u].datas.iter().map(|x| (x.name.clone(), false)).collect();
    names.extend(us[u].imports.iter().map(|i| (i.0.clone(), true)));
    if which.is_none() {
        names.extend(us[u].fns.iter().map(|f| (f.name.clone(), false)));
    }
    if names.is_empty() {
        return None;
    }
    let (name, import) = names[which.unwrap_or_else(|| m.below(names.len()))].clone();
    if name.starts_with("entry") {
        return None;
    }
    let own = us[u].d(&name);
    let weak = own.map_or(false, |d| !d.is_section() && d.scope() == Scope::Weak);
    let at = resolve(us, &w, u, &name);
    match at {
        At::Fn(..) | At::ExtF(_) => {
            let direct = !import && !weak;
            let k = if cfg.raw { m.below(6) } else { 0 };
            Some(match k {
                3 => Step::Call {
                    to: name,
                    rel: Rel::Raw { reloc: 4, addend: -4 },
                },
                4 if direct || !cfg.pic => Step::Call {
                    to: name,
                    rel: Rel::Raw { reloc: 2, addend: -4 },
                },
                5 => Step::GotCall { name },
                _ => Step::Call {
                    to: name,
                    rel: Rel::Auto,
                },
            })
        }
        At::ExtD(_) | At::Data(..) => {
            let tmp;
            let x: &DataDef = match at {
                At::Data(h, i) => &us[h].datas[i],
                _ => {
                    tmp = DataDef {
                        name: name.clone(),
                        d: D::Data {
                            scope: Scope::Global,
                            vis: Vis::Default,
                            w: true,
                            s: false,
                            align: None,
                        },
                        body: Body::Zero(16),
                        ptrs: vec![],
                        syms: vec![],
                    };
                    &tmp
                }
            };
            if x.name.starts_with(".debug") {
                return None;
            }
            let len = x.body.mem_len() as u32;
            let sec = x.d.is_section();
            // what a direct reference may not be to
            let indirect = cfg.shared && weak;
            let off = match m.below(3) {
                0 => 0,
                1 => len.saturating_sub(1),
                _ => m.below(len.max(1) as usize) as u32,
            };
            let mut can: Vec<Step> = vec![];
            if !sec && !indirect {
                if x.plain(off, 1) {
                    can.push(Step::ReadB {
                        name: name.clone(),
                        off,
                        import,
                    });
                    if x.writable() && x.body.mem_len() > 0 {
                        for _ in 0..2 {
                            can.push(Step::WriteB {
                                name: name.clone(),
                                off,
                                val: m.next() as u8,
                                import,
                            });
                        }
                    }
                }
                if !import {
                    if x.plain(0, 8) && len >= 8 {
                        can.push(Step::Read8 { name: name.clone() });
                    }
                    if let Some(D::Data { align: Some(e), .. }) = own {
                        // of the definition that is used
                        // (beyond a page it also takes a loader that cares, and what is empty may be anywhere)
                        if x.d.align() >= Some(1 << e) && len > 0 && (e <= 12 || !cfg.pic) {
                            can.push(Step::Align {
                                name: name.clone(),
                                exp: e,
                            });
                        }
                    }
                    for p in &x.ptrs {
                        if p.width() != 8 {
                            continue;
                        }
                        let h = match at {
                            At::Data(h, _) => h,
                            _ => continue,
                        };
                        match resolve(us, &w, h, &p.to) {
                            At::Fn(..) | At::ExtF(_) => {
                                let f = p.to.as_str();
                                if p.addend() == 0 && !f.starts_with("entry") {
                                    can.push(Step::CallPtr {
                                        via: name.clone(),
                                        slot: p.at,
                                    })
                                }
                            }
                            At::Data(h, i) => {
                                let t = &us[h].datas[i];
                                let a = p.addend() as u32;
                                let l = t.body.mem_len() as u32;
                                if a < l {
                                    let off = [0, l - 1 - a, m.below((l - a) as usize) as u32][m.below(3)];
                                    if t.plain(a + off, 1) {
                                        can.push(Step::ReadPtr {
                                            via: name.clone(),
                                            slot: p.at,
                                            off,
                                        })
                                    }
                                }
                            }
                            At::ExtD(_) => can.push(Step::ReadPtr {
                                via: name.clone(),
                                slot: p.at,
                                off: 0,
                            }),
                            At::None => {}
                        }
                    }
                }
            }
            if cfg.raw && (x.plain(off, 1) && len > 0) {
                if !import && !indirect {
                    can.push(Step::RawB {
                        name: name.clone(),
                        k: off,
                    });
                    if !cfg.pic {
                        can.push(Step::Abs64 {
                            name: name.clone(),
                            k: off,
                        });
                        can.push(Step::Abs32 {
                            name: name.clone(),
                            k: off,
                            typ: [10, 11][m.below(2)],
                        });
                    }
                }
                if !x.d.wants_cstr() {
                    can.push(Step::GotB {
                        name: name.clone(),
                        off,
                    });
                }
            }
            if can.is_empty() {
                None
            } else {
                let i = m.below(can.len());
                Some(can.swap_remove(i))
            }
        }
        At::None => None,
    }
}

/// Names imported or referred to that nothing defines
pub fn unresolved(us: &[Unit]) -> BTreeSet<String> {
    let w = winners(us);
    let mut s = BTreeSet::new();
    for (u, x) in us.iter().enumerate() {
        for (_, _, to, _) in x.links() {
            if resolve(us, &w, u, &to) == At::None {
                s.insert(to);
            }
        }
    }
    s
}
/// Names with more than one global definition
pub fn duplicates(us: &[Unit]) -> BTreeSet<String> {
    let mut n: BTreeMap<&str, usize> = BTreeMap::new();
    for u in us {
        for (name, d) in u.defs() {
            if !d.is_section() && d.scope() == Scope::Global {
                *n.entry(name).or_insert(0) += 1;
            }
        }
    }
    n.into_iter().filter(|x| x.1 > 1).map(|x| x.0.to_string()).collect()
}
pub fn show(us: &[Unit]) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    for u in us {
        let _ = writeln!(s, "unit {:?}; imports {:?}", u.file, u.imports);
        for f in &u.fns {
            let _ = writeln!(s, "  {:?} {:?} const {} pad {}", f.name, f.d, f.konst, f.pad);
            for x in &f.steps {
                let _ = writeln!(s, "      {x:?}");
            }
        }
        for x in &u.datas {
            let _ = writeln!(s, "  {:?} {:?} {:?} symbols {:?}", x.name, x.d, x.body, x.syms);
            for p in &x.ptrs {
                let _ = writeln!(s, "      {p:?}");
            }
        }
    }
    s
}
