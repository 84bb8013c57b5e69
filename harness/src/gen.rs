//! Decodes a tape into a call history. The generator keeps a copy of the reference model, so it can
//! build accepted calls, deliberately rejected calls and format-expressible links by construction.
use crate::model::*;
use crate::spec::*;
use crate::tape::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Names {
    Plain,
    Rich,
    Hostile,
}
#[derive(Clone, Copy, Debug)]
pub struct GenCfg {
    /// the case must be expressible in ELF / in Mach-O
    pub elf: bool,
    pub mach: bool,
    pub targets: Targets,
    /// relative weight of deliberately rejected calls (accepted ones: about 40)
    pub errors: u32,
    pub complete: bool,
    pub names: Names,
    pub links: bool,
    pub auto: bool,
    pub wild_at: bool,
    /// links in zero-initialised data, and symbols beyond the end of their sections
    pub odd: bool,
    pub max_len: u32,
    pub big_zero: bool,
    pub max_align: u8,
    pub sections: bool,
    /// now and then cases with tens of thousands of something
    pub giant: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Targets {
    X64,
    /// x86-64 in half of the cases, otherwise any other
    All,
    /// supported by both back ends
    Both,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg {
            elf: true,
            mach: true,
            targets: Targets::X64,
            errors: 0,
            complete: true,
            names: Names::Rich,
            links: true,
            auto: true,
            wild_at: false,
            odd: false,
            max_len: 300,
            big_zero: false,
            max_align: 15,
            sections: true,
            giant: true,
        }
    }
}

pub const MACH_BUILTIN: [&str; 4] = ["__text", "__data", "__cstring", "__bss"];

pub fn mach_sectname(n: &str) -> String {
    match n.strip_prefix(".debug") {
        Some(r) => format!("__debug{r}"),
        None => n.to_string(),
    }
}

/// What an ELF relocation for this link must be: (type, addend). None: not expressible.
pub fn elf_rel(from: D, to: D, rel: Rel, big: bool) -> Option<(u32, i64)> {
    match rel {
        Rel::Raw { reloc, addend } => Some((reloc, addend as i64)),
        Rel::Debug { size: 4, addend } => Some((10, addend as i64)),
        Rel::Debug { size: 8, addend } => Some((1, addend as i64)),
        Rel::Debug { .. } => None,
        Rel::Auto => match (from, to) {
            (D::Fn { .. }, D::Fn { .. }) | (D::Fn { .. }, D::FnImport) => Some((4, -4)),
            (D::Fn { .. }, D::Data { .. }) => Some((2, -4)),
            (D::Fn { .. }, D::DataImport) => Some((9, -4)),
            (D::Data { .. }, _) => Some(if big { (1, 0) } else { (10, 0) }),
            _ => None,
        },
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MRel {
    /// type, pcrel, log2 length
    Rel(u8, bool, u8),
    /// resolved without a relocation by the format
    NoReloc,
    Refused,
}
pub fn mach_rel(from: D, to: D, rel: Rel) -> MRel {
    use MRel::{NoReloc, Refused};
    let debug_from = matches!(from, D::Sec { kind: SKind::Debug, .. });
    match rel {
        Rel::Raw { reloc, addend } => {
            if addend != 0 || reloc > 15 || to.is_section() {
                Refused
            } else if reloc == 0 {
                MRel::Rel(0, false, 3)
            } else {
                MRel::Rel(reloc as u8, true, 2)
            }
        }
        Rel::Debug { size, .. } => {
            if to.is_section() {
                if debug_from {
                    NoReloc
                } else {
                    Refused
                }
            } else {
                match size {
                    4 => MRel::Rel(0, false, 2),
                    8 => MRel::Rel(0, false, 3),
                    _ => Refused,
                }
            }
        }
        Rel::Auto => match (from, to) {
            (_, D::Sec { .. }) | (D::Sec { .. }, _) => Refused,
            (D::Data { .. }, _) => MRel::Rel(0, false, 3),
            (D::Fn { .. }, D::Fn { .. }) | (D::Fn { .. }, D::FnImport) => MRel::Rel(2, true, 2),
            (D::Fn { .. }, D::Data { .. }) => MRel::Rel(1, true, 2),
            (D::Fn { .. }, D::DataImport) => MRel::Rel(3, true, 2),
            _ => Refused,
        },
    }
}

pub struct G<'c> {
    pub cfg: &'c GenCfg,
    pub m: Model,
    pub plan: BTreeMap<String, Body>,
    pub used: BTreeSet<String>,
    msect: BTreeSet<String>,
    pub names: Vec<String>,
    pub ops: Vec<Op>,
    /// swarm switches
    mask: [bool; 7],
    tgt: &'static Tgt,
    art: String,
}

const RICH: &[&str] = &[
    "a",
    "main",
    "b",
    "aa",
    "ab",
    "str.1",
    "_start",
    "x",
    "foo",
    "foo.bar",
    "ns::f",
    "_x",
    "__x",
    "$L1",
    "\u{e9}",
    "\u{65e5}\u{672c}",
    "a b",
    "fo",
    "foo_",
    "printf",
    "data",
    "text",
    "0",
    "A",
    "?Q@@YAXXZ",
    "_ZN3fooE",
    ".L0",
    "o",
];
const HOSTILE: &[&str] = &[
    ".strtab",
    ".symtab",
    ".shstrtab",
    ".note.GNU-stack",
    ".symtab_shndx",
    ".text",
    ".data",
    ".bss",
    ".rodata",
    ".rela",
    ".text.",
    ".text.a",
    ".data.a",
    ".bss.a",
    ".rela.text.a",
    ".rela.debug_info",
    "__text",
    "__data",
    "__cstring",
    "__bss",
    "_a",
    "__TEXT",
    "faerie.o",
    ".debug_info",
    "__debug_info",
    ".debug_str",
    "_",
    "__",
    " ",
    "_.strtab",
    "\u{1}",
    "\u{7f}",
    "a\n",
    "\\",
    "\"",
    "..",
    ".",
    "a\u{300}",
    "trab",
    "rtab",
    "tab",
    "ab",
];
const SECN: &[&str] = &[
    ".debug_info",
    ".debug_str",
    ".my_sec",
    ".debug_abbrev",
    "__mine",
    ".debug_line_str",
    ".debug_line",
    "custom",
    ".debug",
    ".debugger",
    ".note.mine",
    "__debug_ranges",
    "s",
    "sixteen_bytes_nm",
    ".gnu.x",
    ".debug_str_offs",
    ".debug_str.dwo",
    ".debug.debug",
    "x.debug",
    ".debug_line_st2",
    "_.debug_x",
    ".debug__debug",
    ".init_array",
    ".ctors",
    ".tdata",
    ".tbss",
    ".comment",
    ".eh_frame",
    "__eh_frame",
    "__const",
    "__got",
    ".rodata.str1.1",
    "debug_info",
    ".DEBUG",
    ".group",
    ".text.hot",
    ".data.rel.ro",
    ".bss.zero",
    "__debug_str",
    ".strings",
];
/// custom section kinds by natural name are not required: any name may have any kind
impl<'c> G<'c> {
    pub fn new(cfg: &'c GenCfg, target: &'static str, art: String) -> Self {
        let mut used = BTreeSet::new();
        used.insert(String::new());
        G {
            cfg,
            m: Model::default(),
            plan: BTreeMap::new(),
            used,
            // a custom section named like a default one is still another section
            msect: if cfg.names == Names::Hostile {
                BTreeSet::new()
            } else {
                MACH_BUILTIN.iter().map(|s| s.to_string()).collect()
            },
            names: vec![],
            ops: vec![],
            mask: [true; 7],
            tgt: tgt(target),
            art,
        }
    }
    pub fn set_mask(&mut self, mask: [bool; 7]) {
        self.mask = mask;
    }
    pub fn fresh(&mut self, r: &mut R) -> String {
        let base = match self.cfg.names {
            Names::Plain => {
                let v = r.raw();
                format!(
                    "{}{}",
                    ["f", "g_", "obj", "x.y"][(v as usize * 4) >> 16],
                    self.names.len()
                )
            }
            Names::Rich => match r.weighted(&[20, 1]) {
                0 => r.of(RICH).to_string(),
                _ => {
                    let n = 20 + r.pick(1200);
                    "long_".repeat(n / 5 + 1)
                }
            },
            Names::Hostile => match r.weighted(&[6, 8, 8, 1, 1]) {
                0 => r.of(RICH).to_string(),
                1 => r.of(HOSTILE).to_string(),
                2 => {
                    let e = if self.names.is_empty() {
                        self.art.clone()
                    } else {
                        let i = r.pick(self.names.len());
                        self.names[i].clone()
                    };
                    match r.pick(11) {
                        0 => format!(".text.{e}"),
                        1 => format!(".data.{e}"),
                        2 => format!(".rodata.{e}"),
                        3 => format!(".bss.{e}"),
                        4 => format!(".rela.text.{e}"),
                        5 => format!("_{e}"),
                        6 => format!("{e}x"),
                        7 => {
                            let mut c: Vec<char> = e.chars().collect();
                            c.pop();
                            c.into_iter().collect()
                        }
                        8 => {
                            let c: Vec<char> = e.chars().collect();
                            c.into_iter().skip(1).collect()
                        }
                        9 => format!(".rela{e}"),
                        _ => format!(".rela.data.{e}"),
                    }
                }
                3 => "n\u{e4}me".repeat(1 + r.pick(900)),
                _ => self.art.clone(),
            },
        };
        self.uniq(base)
    }
    fn uniq(&mut self, base: String) -> String {
        if self.used.insert(base.clone()) {
            return base;
        }
        for i in 0.. {
            let n = format!("{base}{i}");
            if self.used.insert(n.clone()) {
                return n;
            }
        }
        unreachable!()
    }
    fn fresh_section(&mut self, r: &mut R) -> String {
        let hostile = self.cfg.names == Names::Hostile;
        let base = if hostile && r.chance(60) {
            match r.pick(3) {
                0 => r.of(HOSTILE).to_string(),
                1 if !self.names.is_empty() => {
                    let i = r.pick(self.names.len());
                    format!(
                        "{}{}",
                        r.of(&[".text.", ".data.", ".rodata.", ".bss.", ".rela.text.", "_"]),
                        self.names[i]
                    )
                }
                _ => r.of(RICH).to_string(),
            }
        } else {
            let v = r.raw() as usize;
            if v < 0xc000 {
                SECN[(v * SECN.len()) / 0xc000].to_string()
            } else {
                // names put together from the pieces real ones have
                const P: &[&str] = &[
                    ".debug", "_str", "_line", ".", "_", "str", "debug", "__", "info", "s", "x", "_offsets",
                ];
                let (a, b, c) = (v & 15, (v >> 4) & 15, (v >> 8) & 15);
                let mut n = String::new();
                for k in [a, b, c] {
                    n.push_str(P.get(k).copied().unwrap_or(""));
                }
                if n.is_empty() {
                    n.push_str(".debug_str_offsets");
                }
                n
            }
        };
        let mut i = 0;
        let mut n = base.clone();
        loop {
            let mut bad = self.used.contains(&n) || n == ".note.GNU-stack";
            if self.cfg.mach {
                let s = mach_sectname(&n);
                bad |= s.len() > 16 || self.msect.contains(&s);
            }
            if !bad {
                break;
            }
            let mut b: String = base.clone();
            if self.cfg.mach {
                while b.len() > 11 {
                    b.pop();
                }
            }
            n = format!("{b}{i}");
            i += 1;
        }
        self.used.insert(n.clone());
        self.msect.insert(mach_sectname(&n));
        n
    }
    pub fn scope(r: &mut R) -> Scope {
        r.of(&[Scope::Local, Scope::Global, Scope::Global, Scope::Weak])
    }
    pub fn vis(r: &mut R) -> Vis {
        r.of(&[Vis::Default, Vis::Default, Vis::Hidden, Vis::Protected])
    }
    fn align(&self, r: &mut R) -> Option<u8> {
        let v = r.raw();
        let u = r.raw();
        if v < 0x7000 {
            return None;
        }
        let lim = self.cfg.max_align.min(if self.tgt.big { 63 } else { 31 }) as usize;
        let n = match v {
            0..=0xefff => lim.min(6),
            // in Mach-O these are padding
            0xf000..=0xfeff if self.cfg.mach => lim.min(12),
            _ => lim,
        } + 1;
        Some(((u as usize * n) >> 16) as u8)
    }
    pub fn fn_decl(&self, r: &mut R) -> D {
        D::Fn {
            scope: Self::scope(r),
            vis: Self::vis(r),
            align: self.align(r),
        }
    }
    pub fn data_decl(&self, r: &mut R, s: bool) -> D {
        D::Data {
            scope: Self::scope(r),
            vis: Self::vis(r),
            w: r.chance(50),
            s,
            align: self.align(r),
        }
    }
    fn len(&self, r: &mut R) -> u32 {
        let k = r.weighted(&[10, 6, 1]);
        let v = r.raw();
        let max = match k {
            0 => 40.min(self.cfg.max_len),
            1 => self.cfg.max_len,
            _ => {
                if self.cfg.max_len >= 300 && v & 0xff < 8 {
                    200_000
                } else if self.cfg.max_len >= 300 {
                    9000
                } else {
                    self.cfg.max_len
                }
            }
        };
        // a zero word gives a small non-empty body
        ((v as u64 + 3 * (65536 / (max as u64 + 1))) % 65536 * (max as u64 + 1) / 65536) as u32
    }
    pub fn body_for(&self, r: &mut R, d: D) -> Body {
        let len = self.len(r);
        let seed = r.raw();
        let z = r.raw();
        let zsel = r.raw();
        if let D::Data { .. } = d {
            // mask[6]: zero-initialised data
            if self.mask[6] && z >= 0xB000 {
                let lim: u64 = if self.tgt.big { 1 << 40 } else { 1 << 26 };
                let n = match zsel >> 12 {
                    0..=9 => len as u64,
                    10..=13 => 1 + (zsel as u64 & 0xfff) * 7,
                    14 => 1 << 20,
                    _ if self.cfg.big_zero => lim + (zsel as u64 & 0xff),
                    _ => 4096,
                };
                return Body::Zero(n);
            }
        }
        if d.wants_cstr() && z < 0x3000 {
            // not one string: several, none, one without an end, two zeros at the end
            let mut v = Body::Blob { len, seed, cstr: false }.bytes();
            for b in v.iter_mut() {
                if (*b as u16 ^ seed) % 5 == 0 {
                    *b = 0;
                }
            }
            let n = v.len();
            for b in &mut v[n - n.min(zsel as usize >> 14)..] {
                *b = 0;
            }
            return Body::Raw(v);
        }
        Body::Blob {
            len,
            seed,
            cstr: d.wants_cstr(),
        }
    }
    /// A fresh declaration: (name, decl) with its planned body recorded.
    fn fresh_decl(&mut self, r: &mut R) -> (String, D) {
        let mut ws = [10u32, 10, 4, 4, 3, 3];
        for (i, w) in ws.iter_mut().enumerate() {
            if !self.mask[i] {
                *w = 0;
            }
        }
        // (a Mach-O object has at most 255 sections)
        if !self.cfg.sections || (self.cfg.mach && self.msect.len() > 230) {
            ws[3] = 0;
        }
        if ws.iter().sum::<u32>() == 0 {
            ws[0] = 1;
        }
        let k = r.weighted(&ws);
        let (name, d) = match k {
            0 => (self.fresh(r), self.fn_decl(r)),
            1 => (self.fresh(r), self.data_decl(r, false)),
            2 => (self.fresh(r), self.data_decl(r, true)),
            3 => {
                let n = self.fresh_section(r);
                let kind = r.of(&[SKind::Debug, SKind::Data, SKind::Text]);
                let s = n == ".debug_str" || n == ".debug_line_str" || r.chance(20);
                (
                    n,
                    D::Sec {
                        kind,
                        s,
                        align: self.align(r),
                    },
                )
            }
            4 => (self.fresh(r), D::FnImport),
            _ => (self.fresh(r), D::DataImport),
        };
        let mut d = d;
        if !d.is_import() {
            let mut b = self.body_for(r, d);
            // a twin: the content, and often the declaration, of an earlier definition
            let tw = r.raw();
            let i = r.raw() as usize;
            let old: Vec<(&String, &Body)> = self.plan.iter().filter(|p| self.m.decls.contains_key(p.0)).collect();
            if tw >= 0xe800 && !old.is_empty() {
                let (n, body) = old[(i * old.len()) >> 16];
                let od = self.m.decls[n].d;
                let same_kind = std::mem::discriminant(&od) == std::mem::discriminant(&d);
                if same_kind && !d.is_section() && tw >= 0xf000 {
                    d = od;
                    b = body.clone();
                } else if !body.is_zero() || matches!(d, D::Data { .. }) {
                    b = match body {
                        Body::Blob { len, seed, .. } => Body::Blob {
                            len: *len,
                            seed: *seed,
                            cstr: d.wants_cstr(),
                        },
                        z => z.clone(),
                    };
                }
            }
            self.names.push(name.clone());
            if matches!(d, D::Sec { .. }) {
                if let Body::Blob { cstr, .. } = &mut b {
                    *cstr = d.wants_cstr();
                }
            }
            self.plan.insert(name.clone(), b);
        } else {
            self.names.push(name.clone());
        }
        (name, d)
    }
    pub fn push(&mut self, op: Op) -> Vec<Exp> {
        let e = self.m.apply(&op);
        self.ops.push(op);
        e
    }
    fn syms(&mut self, r: &mut R, len: u64) -> Vec<(String, u64)> {
        let n = r.weighted(&[3, 2, 1, 1]);
        (0..n)
            .map(|_| {
                let nm = self.fresh(r);
                let mut off = r.pick(len as usize + 1) as u64;
                if self.cfg.odd && r.chance(8) {
                    off = len + 1 + (r.raw() as u64 >> 6);
                }
                (nm, off)
            })
            .collect()
    }
    fn declare_op(&mut self, r: &mut R, name: String, d: D) -> Op {
        let style = (r.raw() >> 8) as u8;
        let api = r.pick(3) as u8;
        Op::Declare { name, d, style, api }
    }
    fn define_op(&mut self, r: &mut R, name: &str) -> Op {
        let body = self.plan[name].clone();
        let syms = if self.m.decls[name].d.is_section() {
            self.syms(r, body.mem_len())
        } else {
            vec![]
        };
        Op::Define {
            name: name.to_string(),
            body,
            syms,
            api: r.pick(3) as u8,
        }
    }
    /// choose a relocation the formats asked for can express
    fn rel_for(&self, r: &mut R, from: D, to: D) -> Option<Rel> {
        let big = self.tgt.big;
        let mut c: Vec<Rel> = vec![];
        if self.cfg.auto {
            c.push(Rel::Auto);
            c.push(Rel::Auto);
            c.push(Rel::Auto);
        }
        let addend = match r.raw() {
            _ if self.cfg.mach => 0,
            // no power of two divides these
            v if v & 15 == 5 => (v as i16 as i32).wrapping_mul(65521),
            v if v & 15 == 6 => [i32::MIN, i32::MAX, -1, 1 << 24, -1 << 24, 0xff_ffff][(v as usize >> 4) % 6],
            v => v as i16 as i32 * 11,
        };
        let rt = r.raw();
        let reloc = if self.cfg.mach {
            [0u32, 1, 2, 3, 4, 6, 7, 8, 9][(rt as usize * 9) >> 16]
        } else if !big || rt < 0xe000 {
            rt as u32 % 256
        } else {
            (rt as u32).wrapping_mul(0x0001_0003)
        };
        c.push(Rel::Raw { reloc, addend });
        if matches!(from, D::Sec { .. }) {
            let addend = if self.cfg.mach { 0 } else { addend };
            c.push(Rel::Debug { size: 8, addend });
            c.push(Rel::Debug { size: 4, addend });
        }
        c.retain(|k| {
            (!self.cfg.elf || elf_rel(from, to, *k, big).is_some())
                && (!self.cfg.mach || mach_rel(from, to, *k) != MRel::Refused)
        });
        if c.is_empty() {
            return None;
        }
        Some(r.of(&c))
    }
    fn link_op(&mut self, r: &mut R) -> Option<Op> {
        let froms: Vec<String> = self
            .m
            .order
            .iter()
            .filter(|n| !self.m.decls[*n].d.is_import() && (self.cfg.odd || !self.plan[*n].is_zero()))
            .filter(|n| self.cfg.wild_at || self.plan[*n].mem_len() >= 4)
            .cloned()
            .collect();
        if froms.is_empty() {
            return None;
        }
        let from = froms[r.pick(froms.len())].clone();
        let to = self.m.order[r.pick(self.m.order.len())].clone();
        let (fd, td) = (self.m.decls[&from].d, self.m.decls[&to].d);
        let rel = self.rel_for(r, fd, td)?;
        let len = self.plan[&from].mem_len();
        let mut width = match (rel, fd) {
            (Rel::Debug { size, .. }, _) => size as u64,
            (Rel::Auto, D::Fn { .. }) => 4,
            (Rel::Raw { reloc, .. }, _) if self.cfg.mach && reloc != 0 => 4,
            (Rel::Auto, _) if !self.tgt.big && !self.cfg.mach => 4,
            _ => 8,
        };
        if len < width && matches!(rel, Rel::Raw { .. }) && !self.cfg.mach {
            width = 4;
        }
        let a = r.raw() as u64;
        let at = if self.cfg.wild_at && r.chance(8) {
            (a << 12) % (1 << 28)
        } else if len >= width {
            (a * (len - width + 1)) >> 16
        } else if self.cfg.wild_at {
            (a * (len + 1)) >> 16
        } else {
            return None;
        };
        Some(Op::Link { from, to, at, rel })
    }
    fn any_decl(&self, r: &mut R) -> D {
        match r.pick(6) {
            0 => D::FnImport,
            1 => D::DataImport,
            2 => self.fn_decl(r),
            3 => self.data_decl(r, false),
            4 => self.data_decl(r, true),
            _ => D::Sec {
                kind: r.of(&[SKind::Debug, SKind::Data, SKind::Text]),
                s: r.chance(30),
                align: self.align(r),
            },
        }
    }
    /// A declaration differing from `d` in exactly one respect, or of another kind altogether
    fn perturb(&self, r: &mut R, d: D) -> D {
        let flip_align = |a: Option<u8>| match a {
            None => Some(0),
            Some(0) => None,
            Some(e) => Some(e - 1),
        };
        let next_scope = |s: Scope| match s {
            Scope::Local => Scope::Global,
            Scope::Global => Scope::Weak,
            Scope::Weak => Scope::Local,
        };
        let next_vis = |s: Vis| match s {
            Vis::Default => Vis::Hidden,
            Vis::Hidden => Vis::Protected,
            Vis::Protected => Vis::Default,
        };
        let k = r.pick(6);
        match d {
            D::Fn { scope, vis, align } => match k {
                0 => D::Fn {
                    scope: next_scope(scope),
                    vis,
                    align,
                },
                1 => D::Fn {
                    scope,
                    vis: next_vis(vis),
                    align,
                },
                2 => D::Fn {
                    scope,
                    vis,
                    align: flip_align(align),
                },
                3 => D::DataImport,
                _ => self.any_decl(r),
            },
            D::Data {
                scope,
                vis,
                w,
                s,
                align,
            } => match k {
                0 => D::Data {
                    scope: next_scope(scope),
                    vis,
                    w,
                    s,
                    align,
                },
                1 => D::Data {
                    scope,
                    vis: next_vis(vis),
                    w,
                    s,
                    align,
                },
                2 => D::Data {
                    scope,
                    vis,
                    w: !w,
                    s,
                    align,
                },
                3 => D::Data {
                    scope,
                    vis,
                    w,
                    s: !s,
                    align,
                },
                4 => D::Data {
                    scope,
                    vis,
                    w,
                    s,
                    align: flip_align(align),
                },
                _ => D::FnImport,
            },
            D::Sec { kind, s, align } => match k {
                0 => D::Sec { kind, s: !s, align },
                1 => D::Sec {
                    kind,
                    s,
                    align: flip_align(align),
                },
                2 => D::Sec {
                    kind: match kind {
                        SKind::Data => SKind::Debug,
                        SKind::Debug => SKind::Text,
                        SKind::Text => SKind::Data,
                    },
                    s,
                    align,
                },
                _ => self.any_decl(r),
            },
            D::FnImport => match k {
                0 | 1 => D::DataImport,
                2 | 3 => self.data_decl(r, false),
                _ => D::Sec {
                    kind: SKind::Debug,
                    s: false,
                    align: None,
                },
            },
            D::DataImport => match k {
                0 | 1 => D::FnImport,
                2 | 3 => self.fn_decl(r),
                _ => D::Sec {
                    kind: SKind::Data,
                    s: false,
                    align: None,
                },
            },
        }
    }
    /// A call meant to be rejected (returned only if the model agrees it is, at least in its last part)
    fn bad_op(&mut self, r: &mut R) -> Option<Op> {
        let any = |g: &Self, r: &mut R| -> Option<String> {
            if g.m.order.is_empty() {
                None
            } else {
                Some(g.m.order[r.pick(g.m.order.len())].clone())
            }
        };
        let ghost = |r: &mut R| format!("ghost{}", r.pick(3));
        let op = match r.pick(12) {
            0 => {
                let name = any(self, r)?;
                let d = self.perturb(r, self.m.decls[&name].d);
                self.declare_op(r, name, d)
            }
            1 => Op::Define {
                name: ghost(r),
                body: Body::Blob {
                    len: 5,
                    seed: 1,
                    cstr: false,
                },
                syms: vec![],
                api: 0,
            },
            2 => {
                // second definition
                let defd: Vec<String> = self
                    .m
                    .order
                    .iter()
                    .filter(|n| self.m.decls[*n].def.is_some())
                    .cloned()
                    .collect();
                if defd.is_empty() {
                    return None;
                }
                let name = defd[r.pick(defd.len())].clone();
                let d = self.m.decls[&name].d;
                let body = match r.pick(3) {
                    0 => self.m.decls[&name].def.clone().unwrap().0,
                    1 => self.body_for(r, d),
                    _ => Body::Zero(9),
                };
                Op::Define {
                    name,
                    body,
                    syms: vec![],
                    api: r.pick(3) as u8,
                }
            }
            3 => {
                let imps = self.m.imports();
                if imps.is_empty() {
                    return None;
                }
                let name = imps[r.pick(imps.len())].0.clone();
                let body = if r.chance(30) {
                    Body::Zero(8)
                } else {
                    Body::Blob {
                        len: 7,
                        seed: 2,
                        cstr: false,
                    }
                };
                let syms = if r.chance(20) {
                    vec![("cs".to_string(), 1)]
                } else {
                    vec![]
                };
                Op::Define {
                    name,
                    body,
                    syms,
                    api: r.pick(3) as u8,
                }
            }
            4 => {
                // zero-initialised function or section
                let name = any(self, r)?;
                Op::Define {
                    name,
                    body: Body::Zero(r.pick(99) as u64),
                    syms: vec![],
                    api: r.pick(3) as u8,
                }
            }
            5 => {
                // custom symbols outside sections
                let name = any(self, r)?;
                let body = if r.chance(30) {
                    Body::Zero(4)
                } else {
                    Body::Blob {
                        len: 4,
                        seed: 9,
                        cstr: false,
                    }
                };
                let mut syms = vec![("cs1".to_string(), 0)];
                if r.chance(40) {
                    syms.push(("cs2".to_string(), r.raw() as u64));
                }
                Op::Define {
                    name,
                    body,
                    syms,
                    api: r.pick(3) as u8,
                }
            }
            6 => {
                let to = any(self, r).unwrap_or_else(|| "ghost0".into());
                Op::Link {
                    from: ghost(r),
                    to,
                    at: r.raw() as u64,
                    rel: Rel::Auto,
                }
            }
            7 => Op::Link {
                from: any(self, r)?,
                to: ghost(r),
                at: r.raw() as u64,
                rel: Rel::Auto,
            },
            8 => {
                let imps = self.m.imports();
                if imps.is_empty() {
                    return None;
                }
                let from = imps[r.pick(imps.len())].0.clone();
                let to = if r.chance(20) { ghost(r) } else { any(self, r)? };
                Op::Link {
                    from,
                    to,
                    at: r.raw() as u64,
                    rel: r.of(&[Rel::Auto, Rel::Raw { reloc: 1, addend: 2 }]),
                }
            }
            9 => {
                // bulk with a conflicting entry: what precedes it is kept
                let name = any(self, r)?;
                let d = self.perturb(r, self.m.decls[&name].d);
                let n = r.pick(3);
                let mut items = vec![];
                for _ in 0..n {
                    items.push(self.fresh_decl(r));
                }
                items.push((name, d));
                // entries after the rejected one must be ignored; their names stay undeclared
                if r.chance(60) {
                    items.push((
                        format!("after{}", r.pick(4)),
                        D::Fn {
                            scope: Scope::Local,
                            vis: Vis::Default,
                            align: None,
                        },
                    ));
                }
                let op = Op::Bulk { items: items.clone() };
                let mut m = self.m.clone();
                if m.apply(&op) == vec![Exp::Ok] {
                    // the names are burnt; forget them
                    self.names.retain(|n| self.m.decls.contains_key(n));
                    return None;
                }
                return Some(op);
            }
            10 => {
                // declare_with whose definition is refused
                match r.pick(3) {
                    0 => {
                        let n = self.fresh(r);
                        self.names.push(n.clone());
                        let d = r.of(&[D::FnImport, D::DataImport]);
                        Op::DeclareWith {
                            name: n,
                            d,
                            style: 0,
                            body: Body::Blob {
                                len: 3,
                                seed: 4,
                                cstr: false,
                            },
                        }
                    }
                    1 => {
                        let defd: Vec<String> = self
                            .m
                            .order
                            .iter()
                            .filter(|n| self.m.decls[*n].def.is_some())
                            .cloned()
                            .collect();
                        if defd.is_empty() {
                            return None;
                        }
                        let name = defd[r.pick(defd.len())].clone();
                        let d = self.m.decls[&name].d;
                        Op::DeclareWith {
                            name,
                            d,
                            style: 1,
                            body: Body::Blob {
                                len: 3,
                                seed: 4,
                                cstr: false,
                            },
                        }
                    }
                    _ => {
                        let name = any(self, r)?;
                        let d = self.perturb(r, self.m.decls[&name].d);
                        Op::DeclareWith {
                            name,
                            d,
                            style: 1,
                            body: Body::Blob {
                                len: 3,
                                seed: 4,
                                cstr: false,
                            },
                        }
                    }
                }
            }
            _ => {
                // a rejected conversion of an upgraded import back, or of a definition to the other import
                let name = any(self, r)?;
                let d = match self.m.decls[&name].d {
                    D::Fn { .. } => D::DataImport,
                    D::Data { .. } => D::FnImport,
                    _ => return None,
                };
                self.declare_op(r, name, d)
            }
        };
        let mut m = self.m.clone();
        if m.apply(&op).contains(&Exp::Ok) {
            return None;
        }
        Some(op)
    }
    pub fn step(&mut self, r: &mut R) {
        let errs = self.cfg.errors;
        let links = if self.cfg.links { 12 } else { 0 };
        let op = match r.weighted(&[8, 8, 8, links, 3, 3, 2, errs]) {
            0 => {
                let (n, d) = self.fresh_decl(r);
                Some(self.declare_op(r, n, d))
            }
            1 => {
                let (n, d) = self.fresh_decl(r);
                match self.plan.get(&n).cloned() {
                    Some(b) if !b.is_zero() => Some(Op::DeclareWith {
                        name: n,
                        d,
                        style: (r.raw() >> 8) as u8,
                        body: b,
                    }),
                    _ => Some(self.declare_op(r, n, d)),
                }
            }
            2 => {
                let u = self.m.undefined();
                if u.is_empty() {
                    None
                } else {
                    let n = u[r.pick(u.len())].clone();
                    Some(self.define_op(r, &n))
                }
            }
            3 => self.link_op(r),
            4 => {
                // upgrade an import
                let imps = self.m.imports();
                if imps.is_empty() || !(self.mask[0] || self.mask[1]) {
                    None
                } else {
                    let (n, d) = imps[r.pick(imps.len())].clone();
                    let nd = match d {
                        D::FnImport => self.fn_decl(r),
                        _ => {
                            let s = r.chance(15);
                            self.data_decl(r, s)
                        }
                    };
                    let b = self.body_for(r, nd);
                    self.plan.insert(n.clone(), b.clone());
                    if r.chance(40) && !b.is_zero() {
                        Some(Op::DeclareWith {
                            name: n,
                            d: nd,
                            style: (r.raw() >> 8) as u8,
                            body: b,
                        })
                    } else {
                        Some(self.declare_op(r, n, nd))
                    }
                }
            }
            5 => {
                // accepted redeclaration
                if self.m.order.is_empty() {
                    None
                } else {
                    let n = self.m.order[r.pick(self.m.order.len())].clone();
                    let d = self.m.decls[&n].d;
                    let nd = match d {
                        D::Fn { .. } if r.chance(50) => D::FnImport,
                        D::Data { .. } if r.chance(50) => D::DataImport,
                        d => d,
                    };
                    Some(self.declare_op(r, n, nd))
                }
            }
            6 => {
                let n = 1 + r.pick(2);
                let items: Vec<(String, D)> = (0..n).map(|_| self.fresh_decl(r)).collect();
                Some(Op::Bulk { items })
            }
            _ => self.bad_op(r),
        };
        let op = match op {
            Some(op) => op,
            None => {
                let (n, d) = self.fresh_decl(r);
                self.declare_op(r, n, d)
            }
        };
        self.push(op);
    }
    pub fn complete(&mut self, r: &mut R) {
        let mut u = self.m.undefined();
        while !u.is_empty() {
            let i = r.pick(u.len());
            let n = u.remove(i);
            if !self.plan.contains_key(&n) {
                let d = self.m.decls[&n].d;
                let b = Body::Blob {
                    len: 6,
                    seed: 3,
                    cstr: d.wants_cstr(),
                };
                self.plan.insert(n.clone(), b);
            }
            let op = self.define_op(r, &n);
            self.push(op);
        }
    }
}

pub fn pick_target(r: &mut R, t: Targets) -> &'static str {
    let v = r.raw();
    let u = r.raw();
    if t == Targets::X64 || v < 0x6000 {
        return X64;
    }
    let l: Vec<&Tgt> = TARGETS
        .iter()
        .filter(|x| t != Targets::Both || x.mach.is_some())
        .collect();
    l[(u as usize * l.len()) >> 16].triple
}

pub struct Gen {
    pub case: Case,
    pub model: Model,
    /// final planned bodies
    pub used: BTreeSet<String>,
}

/// A complete artifact with more of something than 8 or 16 bits can count: imports, definitions,
/// links of one source, custom symbols of one section, bytes of content, characters of names.
fn giant(g: &mut G, t: &Tape) {
    let mut mix = crate::drive::Mix::of(&t.hdr);
    let mut h = R::new(&t.hdr);
    let _ = h.raw();
    let _ = h.raw();
    let n = (h.of(&[0x100usize, 0x1000, 0x8000, 0x10000, 0x10000, 0x10000, 0x1_1000]) + h.pick(16)) - 8;
    let mode = h.pick(7);
    let scopes = [Scope::Local, Scope::Global, Scope::Weak];
    let decl = |mix: &mut crate::drive::Mix| -> D {
        let scope = scopes[mix.below(3)];
        let vis = Vis::Default;
        match mix.below(4) {
            0 | 1 => D::Fn {
                scope,
                vis,
                align: None,
            },
            k => D::Data {
                scope,
                vis,
                w: k == 2,
                s: mix.below(8) == 0,
                align: None,
            },
        }
    };
    let add = |g: &mut G, name: String, d: D, len: u32, syms: Vec<(String, u64)>| {
        g.used.insert(name.clone());
        g.names.push(name.clone());
        g.push(Op::Declare {
            name: name.clone(),
            d,
            style: 0,
            api: 0,
        });
        if d.is_import() {
            return;
        }
        let body = Body::Blob {
            len,
            seed: g.names.len() as u16,
            cstr: d.wants_cstr(),
        };
        g.plan.insert(name.clone(), body.clone());
        g.push(Op::Define {
            name,
            body,
            syms,
            api: 1,
        });
    };
    // a few ordinary definitions before and after the mass
    let few = |g: &mut G, mix: &mut crate::drive::Mix, p: &str| {
        for i in 0..4 {
            let d = decl(mix);
            add(g, format!("{p}{i}"), d, 24, vec![]);
        }
    };
    few(g, &mut mix, "first");
    let f = D::Fn {
        scope: Scope::Global,
        vis: Vis::Default,
        align: None,
    };
    match mode {
        0 => {
            for i in 0..n {
                let d = if mix.below(2) == 0 { D::FnImport } else { D::DataImport };
                add(g, format!("i{i:x}"), d, 0, vec![]);
            }
        }
        1 => {
            for i in 0..n {
                let d = match mix.below(4) {
                    0 => D::Data {
                        scope: scopes[mix.below(3)],
                        vis: Vis::Default,
                        w: true,
                        s: false,
                        align: None,
                    },
                    1 => D::Fn {
                        scope: Scope::Local,
                        vis: Vis::Default,
                        align: None,
                    },
                    _ => f,
                };
                let len = mix.below(4) as u32;
                add(g, format!("d{i:x}"), d, len, vec![]);
            }
        }
        2 => {
            let d = if mix.below(2) == 0 {
                f
            } else {
                D::Data {
                    scope: Scope::Global,
                    vis: Vis::Default,
                    w: true,
                    s: false,
                    align: None,
                }
            };
            add(g, "big".into(), d, 8 * n as u32, vec![]);
        }
        3 if g.cfg.sections => {
            let d = D::Sec {
                kind: [SKind::Debug, SKind::Data, SKind::Text][mix.below(3)],
                s: false,
                align: None,
            };
            let syms = (0..n).map(|i| (format!("c{i:x}"), (i % 4000) as u64)).collect();
            add(g, ".mine".into(), d, 4000, syms);
        }
        3 | 4 => {
            for i in 0..3 + n / 0x4000 {
                let (a, b) = (mix.below(3_000_000) as u32, 0xfff8 + mix.below(16) as u32);
                let d = if i == 0 {
                    f
                } else {
                    D::Data {
                        scope: Scope::Global,
                        vis: Vis::Default,
                        w: i % 2 == 1,
                        s: i % 5 == 3,
                        align: None,
                    }
                };
                add(g, format!("wide{i}"), d, if i % 2 == 0 { a + 8 } else { b }, vec![]);
            }
        }
        6 if g.cfg.sections => {
            // (a Mach-O object has at most 255 sections)
            let most = if g.cfg.mach { 250 } else { 3000 };
            for i in 0..100 + mix.below(most - 100) {
                if i % 37 == 5 {
                    let name = format!("zero{i}");
                    let d = D::Data {
                        scope: scopes[mix.below(3)],
                        vis: Vis::Default,
                        w: true,
                        s: false,
                        align: None,
                    };
                    g.used.insert(name.clone());
                    g.names.push(name.clone());
                    g.push(Op::Declare {
                        name: name.clone(),
                        d,
                        style: 0,
                        api: 0,
                    });
                    let body = Body::Zero(mix.below(300) as u64);
                    g.plan.insert(name.clone(), body.clone());
                    g.push(Op::Define {
                        name,
                        body,
                        syms: vec![],
                        api: 0,
                    });
                    continue;
                }
                let d = D::Sec {
                    kind: [SKind::Debug, SKind::Data, SKind::Text][mix.below(3)],
                    s: mix.below(5) == 0,
                    align: match mix.below(3) {
                        0 => Some(mix.below(6) as u8),
                        _ => None,
                    },
                };
                let len = mix.below(40) as u32;
                let syms = match mix.below(4) {
                    0 => vec![(format!("c{i}"), mix.below(len as usize + 1) as u64)],
                    _ => vec![],
                };
                add(g, format!("sec{i}"), d, len, syms);
            }
        }
        _ => {
            for i in 0..3 + n / 0x4000 {
                let len = match mix.below(3) {
                    0 => 250 + mix.below(10),
                    1 => 0xfff0 + mix.below(20),
                    _ => mix.below(400_000),
                };
                let d = if i % 3 == 2 { D::FnImport } else { f };
                add(g, format!("{i}{}", "n".repeat(len)), d, 9, vec![]);
            }
        }
    }
    few(g, &mut mix, "last");
    if !g.cfg.links {
        return;
    }
    // links from the few and, where it is big, from every eighth byte of the mass
    let srcs: Vec<String> = g
        .names
        .iter()
        .filter(|x| g.m.decls[*x].def.is_some() && !g.plan[*x].is_zero() && g.plan[*x].mem_len() >= 16)
        .cloned()
        .collect();
    if srcs.is_empty() {
        return;
    }
    let count = if mode == 2 { 2 * n } else { 60 };
    let mut from_big = 0;
    for i in 0..count {
        if from_big == n {
            break;
        }
        let from = if mode == 2 && i % 500 != 0 && g.plan.contains_key("big") {
            "big".to_string()
        } else {
            srcs[mix.below(srcs.len())].clone()
        };
        let to = match mix.below(3) {
            0 => g.names[mix.below(g.names.len().min(12))].clone(),
            1 => g.names[g.names.len() - 1 - mix.below(g.names.len().min(12))].clone(),
            _ => g.names[mix.below(g.names.len())].clone(),
        };
        let len = g.plan[&from].mem_len() / 8;
        let at = match mix.below(3) {
            0 if mode != 2 => len - 1 - mix.below(4.min(len as usize)) as u64,
            _ if mode == 2 && from == "big" => i as u64 % len,
            _ => mix.below(len as usize) as u64,
        } * 8;
        let mut row = [0u16; W];
        for w in row.iter_mut() {
            *w = mix.next() as u16;
        }
        let (fd, td) = (g.m.decls[&from].d, g.m.decls[&to].d);
        if let Some(rel) = g.rel_for(&mut R::new(&row), fd, td) {
            from_big += (from == "big") as usize;
            g.push(Op::Link { from, to, at, rel });
        }
    }
}

pub fn decode(t: &Tape, cfg: &GenCfg) -> Gen {
    let mut h = R::new(&t.hdr);
    let target = pick_target(&mut h, cfg.targets);
    let art = match cfg.names {
        Names::Hostile => {
            let v = h.pick(12);
            [
                "faerie.o",
                "a",
                ".strtab",
                ".symtab",
                "",
                "foo",
                ".text.a",
                ".note.GNU-stack",
                "main",
                "\u{e9}",
                "_a",
                "b.c",
            ][v]
                .to_string()
        }
        _ => h.of(&["faerie.o", "obj", "x/y.c", "a"]).to_string(),
    };
    let mut cfg2 = *cfg;
    if target != X64 && target != "x86_64-apple-darwin" {
        // automatic and debug relocations are x86-64 ones
        cfg2.auto = false;
    }
    let mut g = G::new(&cfg2, target, art.clone());
    if cfg.giant && t.hdr[14] >= 0xfffa {
        giant(&mut g, t);
        return Gen {
            case: Case {
                target,
                name: art,
                ops: g.ops,
            },
            model: g.m,
            used: g.used,
        };
    }
    let m = h.raw();
    let mut mask = [true; 7];
    if m >= 0x8000 {
        for (i, b) in mask.iter_mut().enumerate() {
            *b = (m >> i) & 3 != 0;
        }
    }
    g.set_mask(mask);
    for row in &t.rows {
        let mut r = R::new(row);
        g.step(&mut r);
    }
    // now and then hundreds of further steps: counts beyond a byte, many links of one source
    if t.hdr[13] >= 0xff80 {
        let mut mix = crate::drive::Mix::of(&t.hdr);
        let linky = t.hdr[12] & 1 == 1;
        for _ in 0..(t.hdr[13] as usize - 0xff80) * 8 {
            let mut row = [0u16; W];
            for w in row.iter_mut() {
                *w = mix.next() as u16;
            }
            if linky && mix.below(8) != 0 && !g.m.order.is_empty() {
                row[0] = 0x8c80;
            }
            g.step(&mut R::new(&row));
        }
    }
    if cfg.complete {
        // the header's tail drives the order of the completing definitions
        let mut tail = [0u16; W];
        for i in 0..W {
            tail[i] = t.hdr[i].rotate_left(7) ^ t.hdr[(i + 5) % W];
        }
        if t.hdr.iter().all(|x| *x == 0) {
            tail = [0; W];
        }
        let mut r = R::new(&tail);
        g.complete(&mut r);
    }
    Gen {
        case: Case {
            target,
            name: art,
            ops: g.ops,
        },
        model: g.m,
        used: g.used,
    }
}

/// A history of arbitrary calls over a small set of names (most combinations collide).
pub fn chaos(t: &Tape) -> Gen {
    let cfg = GenCfg {
        max_align: 6,
        max_len: 12,
        ..GenCfg::default()
    };
    let mut h = R::new(&t.hdr);
    let pool = ["a", "b", "c", "d", ".s", "e"];
    let np = 2 + h.pick(5);
    let narrow = h.chance(60);
    let mut g = G::new(&cfg, X64, "chaos".into());
    let decl = |g: &G, r: &mut R| -> D {
        if narrow {
            let sc = r.of(&[Scope::Local, Scope::Global]);
            match r.pick(7) {
                0 => D::FnImport,
                1 => D::Fn {
                    scope: sc,
                    vis: Vis::Default,
                    align: None,
                },
                2 => D::DataImport,
                3 => D::Data {
                    scope: sc,
                    vis: Vis::Default,
                    w: r.chance(50),
                    s: false,
                    align: None,
                },
                4 => D::Data {
                    scope: Scope::Global,
                    vis: Vis::Default,
                    w: false,
                    s: r.chance(50),
                    align: None,
                },
                5 => D::Sec {
                    kind: r.of(&[SKind::Debug, SKind::Data]),
                    s: false,
                    align: None,
                },
                _ => D::Sec {
                    kind: SKind::Text,
                    s: r.chance(30),
                    align: None,
                },
            }
        } else {
            g.any_decl(r)
        }
    };
    for row in &t.rows {
        let mut r = R::new(row);
        let k = r.weighted(&[10, 3, 2, 5, 8, 6]);
        let name = pool[r.pick(np)].to_string();
        let op = match k {
            0 => {
                let d = decl(&g, &mut r);
                g.declare_op(&mut r, name, d)
            }
            1 => {
                let d = match r.pick(2) {
                    0 => D::FnImport,
                    _ => D::DataImport,
                };
                Op::Declare {
                    name,
                    d,
                    style: r.pick(2) as u8,
                    api: 1,
                }
            }
            2 => {
                let n = r.pick(4);
                let items = (0..n)
                    .map(|_| (pool[r.pick(np)].to_string(), decl(&g, &mut r)))
                    .collect();
                Op::Bulk { items }
            }
            3 => {
                let d = decl(&g, &mut r);
                Op::DeclareWith {
                    name,
                    d,
                    style: (r.raw() >> 8) as u8,
                    body: Body::Blob {
                        len: r.pick(9) as u32,
                        seed: r.raw(),
                        cstr: false,
                    },
                }
            }
            4 => {
                let body = if r.chance(30) {
                    Body::Zero(r.pick(50) as u64)
                } else {
                    Body::Blob {
                        len: r.pick(9) as u32,
                        seed: r.raw(),
                        cstr: false,
                    }
                };
                let syms = if r.chance(25) {
                    vec![(format!("cs.{name}"), 1), (format!("ct.{name}"), r.pick(4) as u64)]
                } else {
                    vec![]
                };
                Op::Define {
                    name,
                    body,
                    syms,
                    api: r.pick(3) as u8,
                }
            }
            _ => {
                let to = pool[r.pick(np)].to_string();
                let rel = r.of(&[
                    Rel::Auto,
                    Rel::Raw { reloc: 1, addend: 7 },
                    Rel::Debug { size: 8, addend: 1 },
                    Rel::Raw { reloc: 2, addend: 0 },
                ]);
                Op::Link {
                    from: name,
                    to,
                    at: r.pick(9) as u64,
                    rel,
                }
            }
        };
        g.push(op);
    }
    Gen {
        case: Case {
            target: X64,
            name: "chaos".into(),
            ops: g.ops,
        },
        model: g.m,
        used: g.used,
    }
}
