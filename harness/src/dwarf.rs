//! C29: debug information written through the library (sections of kind debug, and links from them
//! to code, data and each other) is read back with LLVM's reader: from ELF and Mach-O objects and from
//! programs linked by GNU ld, gold and lld.
use crate::drive::*;
use crate::elf::ensure;
use crate::link_arch::{Arch, ARCHS};
use crate::link_elf::{run, Dir, Img, Ran, LINKERS};
use crate::mach;
use crate::spec::*;
use crate::tape::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    ElfObject,
    /// linker, kind of output, how the objects or the result are treated
    Elf(usize, u8, u8),
    /// another architecture's program
    Arch(usize),
    /// with addresses put in by hand
    MachObject(usize),
}
#[derive(Clone, Debug, Hash)]
struct LRow {
    off: u64,
    line: u32,
    col: u16,
    file: usize,
    /// written with its own address
    abs: bool,
}
#[derive(Clone, Debug, Hash)]
struct F {
    name: String,
    d: D,
    body: Body,
    rows: Vec<LRow>,
    block: Option<Vec<(u64, u64)>>,
    cu: usize,
    style: u16,
}
#[derive(Clone, Debug, Hash)]
struct V {
    name: String,
    d: D,
    body: Body,
    off: u64,
    ty: usize,
    cu: usize,
    style: u16,
}
#[derive(Clone, Debug, Hash)]
struct Cu {
    name: String,
    dir: String,
    v5: bool,
    /// 64-bit DWARF
    wide: bool,
    files: Vec<(String, usize)>,
    dirs: Vec<String>,
    types: Vec<String>,
    ranges: bool,
    style: u16,
}
#[derive(Clone, Debug, Hash, Default)]
struct Obj {
    name: String,
    fns: Vec<F>,
    vars: Vec<V>,
    cus: Vec<Cu>,
    aranges: bool,
    frame: bool,
    eh: bool,
    shared_abbrev: bool,
    /// strings are far from the start
    far: bool,
    garbage: bool,
    order: u16,
}
#[derive(Clone, Debug, Hash)]
pub struct Dw {
    mode: Mode,
    objs: Vec<Obj>,
}
const MACHS: [&str; 5] = [
    "x86_64-apple-darwin",
    "aarch64-apple-darwin",
    "i686-apple-darwin",
    "armv7s-apple-ios",
    "powerpc-apple-darwin",
];
impl Mode {
    fn mach(self) -> bool {
        matches!(self, Mode::MachObject(_))
    }
    fn arch(self) -> Option<&'static Arch> {
        match self {
            Mode::Arch(i) => Some(&ARCHS[i]),
            _ => None,
        }
    }
    fn target(self) -> &'static str {
        match self {
            Mode::Arch(i) => ARCHS[i].target,
            Mode::MachObject(i) => MACHS[i],
            _ => X64,
        }
    }
    fn object(self) -> bool {
        matches!(self, Mode::ElfObject | Mode::MachObject(_))
    }
}

// ------------------------------------------------------------------ cases

fn mode(t: &Tape) -> Mode {
    let mut h = R::new(&t.hdr);
    match h.weighted(&[2, 6, 2, 2]) {
        0 => Mode::ElfObject,
        1 => Mode::Elf(h.pick(3), h.pick(3) as u8, h.pick(6) as u8),
        // all but the last, which has no addresses of 32 bits
        2 => Mode::Arch(h.pick(ARCHS.len() - 1)),
        _ => Mode::MachObject(h.pick(MACHS.len())),
    }
}
pub fn decode_dw(t: &Tape) -> Dw {
    let mode = mode(t);
    let mut h = R::new(&t.hdr);
    for _ in 0..8 {
        h.raw();
    }
    let n = match mode {
        Mode::ElfObject | Mode::MachObject(_) => 1,
        _ => 1 + h.pick(2),
    };
    let flags = h.raw();
    let mut objs: Vec<Obj> = (0..n)
        .map(|i| Obj {
            name: format!("o{i}.o"),
            aranges: flags >> 1 & 1 == 1 && !mode.mach() && !mode.object(),
            frame: flags >> 2 & 1 == 1 && !mode.mach(),
            eh: flags >> 3 & 1 == 1 && matches!(mode, Mode::Elf(..)),
            shared_abbrev: flags >> 4 & 1 == 1,
            far: flags >> 7 & 7 == 7,
            garbage: flags >> 5 & 3 == 3 && matches!(mode, Mode::Elf(..) | Mode::ElfObject),
            order: h.raw(),
            ..Obj::default()
        })
        .collect();
    let inplace = mode.mach();
    let cu = |o: &mut Obj, oi: usize, r: &mut R| {
        let k = o.cus.len();
        let nd = 1 + r.pick(3);
        let nf = 1 + r.pick(3);
        let style = r.raw();
        let v5 = r.chance(50);
        let dirs: Vec<String> = (0..nd).map(|d| format!("/d{oi}{k}/{d}")).collect();
        let c = Cu {
            name: format!("unit{oi}_{k}.c"),
            dir: dirs[0].clone(),
            v5,
            wide: r.chance(15) && reaches_64(mode),
            files: (0..nf).map(|f| (format!("file{oi}_{k}_{f}.c"), r.pick(nd))).collect(),
            dirs,
            types: vec![format!("type{oi}_{k}")],
            ranges: r.chance(70),
            style,
        };
        o.cus.push(c);
    };
    let fun = |o: &mut Obj, oi: usize, r: &mut R, name: String, d: D| {
        let len = 1 + r.pick(60) as u64;
        let seed = r.raw();
        // addends of more than sixteen bits
        let len = if seed % 40 == 39 { 65_000 + 1000 * len } else { len };
        let cus = o.cus.len();
        let c = r.pick(cus);
        let mut mix = Mix::new(seed as u64 + 77 * oi as u64);
        let nr = r.pick(6);
        let mut off = 0;
        let rows = (0..nr)
            .map(|i| {
                if i > 0 {
                    off += mix.below((len - off) as usize) as u64;
                }
                LRow {
                    off,
                    line: 1 + [mix.below(40), mix.below(100_000)][mix.below(2)] as u32,
                    col: [0, mix.below(120), mix.below(0x10000)][mix.below(3)] as u16,
                    file: mix.below(o.cus[c].files.len()),
                    abs: !inplace && mix.below(4) == 0,
                }
            })
            .collect();
        let block = (r.chance(30) && len > 3).then(|| {
            let a = mix.below(len as usize - 1) as u64;
            let b = a + 1 + mix.below((len - a - 1) as usize) as u64;
            if b + 1 < len && mix.below(2) == 0 {
                vec![(a, b), (b + 1, len)]
            } else {
                vec![(a, b)]
            }
        });
        let style = r.raw();
        o.fns.push(F {
            name,
            d,
            body: Body::Blob {
                len: len as u32,
                seed,
                cstr: false,
            },
            rows,
            block,
            cu: c,
            style,
        });
    };
    for (i, o) in objs.iter_mut().enumerate() {
        let mut r = R::new(&t.hdr);
        for _ in 0..12 {
            r.raw();
        }
        cu(o, i, &mut r);
        if i == 0 {
            let d = D::Fn {
                scope: Scope::Global,
                vis: Vis::Default,
                align: None,
            };
            fun(o, i, &mut r, "entry".into(), d);
        }
    }
    for (k, row) in t.rows.iter().enumerate() {
        let mut r = R::new(row);
        let what = r.weighted(&[5, 3, 1]);
        let oi = r.pick(objs.len());
        let o = &mut objs[oi];
        let scope = r.of(&[Scope::Global, Scope::Local, Scope::Weak]);
        let vis = if scope == Scope::Local {
            Vis::Default
        } else {
            r.of(&[Vis::Default, Vis::Default, Vis::Hidden, Vis::Protected])
        };
        let align = [None, None, Some(0), Some(2), Some(4), Some(6)][r.pick(6)];
        // the same weak name may be known to both
        let common = scope == Scope::Weak && n == 2 && r.chance(50);
        let name = |c: char| match common {
            true => format!("{c}common{}", k % 3),
            false => format!("{c}{oi}_{k}"),
        };
        match what {
            0 => {
                let name = name('f');
                if !o.fns.iter().any(|f| f.name == name) {
                    fun(o, oi, &mut r, name, D::Fn { scope, vis, align })
                }
            }
            1 => {
                let name = name('v');
                if o.vars.iter().any(|v| v.name == name) {
                    continue;
                }
                let mut len = 1 + r.pick(24) as u64;
                let seed = r.raw();
                let zero = r.chance(30);
                if zero && seed % 4 == 0 {
                    len = 0xfff0 + (seed as u64 >> 2) * 8;
                }
                let cus = o.cus.len();
                let v = V {
                    name,
                    d: D::Data {
                        scope,
                        vis,
                        w: zero || r.chance(60),
                        s: false,
                        align,
                    },
                    body: if zero {
                        Body::Zero(len)
                    } else {
                        Body::Blob {
                            len: len as u32,
                            seed,
                            cstr: false,
                        }
                    },
                    off: if inplace { 0 } else { r.pick(len as usize) as u64 },
                    ty: r.pick(cus),
                    cu: r.pick(cus),
                    style: r.raw(),
                };
                o.vars.push(v);
            }
            _ => {
                if o.cus.len() < 3 {
                    cu(o, oi, &mut r)
                }
            }
        }
    }
    Dw { mode, objs }
}
/// whether a section offset can have eight bytes
fn reaches_64(m: Mode) -> bool {
    tgt(m.target()).big && m.arch().map_or(true, |a| a.kinds.iter().any(|k| k.1 == 8 && !k.2))
}
pub fn c29_show(t: &Tape) -> String {
    let x = decode_dw(t);
    let mut s = format!("{:?} {}\n", x.mode, x.mode.target());
    for o in &x.objs {
        s += &format!(
            "object {} aranges {} frame {} eh {} one abbrev table {} far strings {} garbage {}\n",
            o.name, o.aranges, o.frame, o.eh, o.shared_abbrev, o.far, o.garbage
        );
        for c in &o.cus {
            s += &format!("  {c:?}\n");
        }
        for f in &o.fns {
            s += &format!("  {f:?}\n");
        }
        for v in &o.vars {
            s += &format!("  {v:?}\n");
        }
    }
    s
}

// ------------------------------------------------------------------ writing

#[derive(Default)]
struct Buf {
    b: Vec<u8>,
    /// place, target, size, addend
    links: Vec<(u64, String, u8, i64)>,
    /// relative to the place
    pcrel: Vec<(u64, String)>,
}
struct W {
    be: bool,
    asz: usize,
    mach: bool,
    garbage: bool,
    secs: BTreeMap<&'static str, Buf>,
}
const INFO: &str = ".debug_info";
const ABBREV: &str = ".debug_abbrev";
const STR: &str = ".debug_str";
const LINE: &str = ".debug_line";
const LINE_STR: &str = ".debug_line_str";
const RANGES: &str = ".debug_ranges";
const RNGLISTS: &str = ".debug_rnglists";
const ADDR: &str = ".debug_addr";
const STR_OFFS: &str = ".debug_str_offsets";
const ARANGES: &str = ".debug_aranges";
const FRAME: &str = ".debug_frame";
const EH: &str = ".eh_frame";

impl W {
    fn at(&mut self, s: &'static str) -> &mut Buf {
        self.secs.entry(s).or_default()
    }
    fn pos(&mut self, s: &'static str) -> u64 {
        self.at(s).b.len() as u64
    }
    fn num(&self, v: u64, n: usize) -> Vec<u8> {
        if self.be {
            v.to_be_bytes()[8 - n..].to_vec()
        } else {
            v.to_le_bytes()[..n].to_vec()
        }
    }
    fn n(&mut self, s: &'static str, v: u64, n: usize) {
        let x = self.num(v, n);
        self.at(s).b.extend(x)
    }
    fn patch(&mut self, s: &'static str, at: u64, v: u64, n: usize) {
        let x = self.num(v, n);
        let at = at as usize;
        self.at(s).b[at..at + n].copy_from_slice(&x)
    }
    fn u8(&mut self, s: &'static str, v: u8) {
        self.at(s).b.push(v)
    }
    fn uleb(&mut self, s: &'static str, mut v: u64) {
        loop {
            let b = v as u8 & 0x7f;
            v >>= 7;
            self.u8(s, b | if v != 0 { 0x80 } else { 0 });
            if v == 0 {
                break;
            }
        }
    }
    fn sleb(&mut self, s: &'static str, mut v: i64) {
        loop {
            let b = v as u8 & 0x7f;
            v >>= 7;
            let end = v == 0 && b & 0x40 == 0 || v == -1 && b & 0x40 != 0;
            self.u8(s, b | if end { 0 } else { 0x80 });
            if end {
                break;
            }
        }
    }
    fn cstr(&mut self, s: &'static str, x: &str) {
        let b = &mut self.at(s).b;
        b.extend(x.as_bytes());
        b.push(0)
    }
    fn addr(&mut self, s: &'static str, sym: &str, addend: u64) {
        let (n, at) = (self.asz, self.pos(s));
        self.at(s).links.push((at, sym.into(), n as u8, addend as i64));
        let v = if self.garbage { 0x1122_3344_5566_7788 } else { 0 };
        self.n(s, v, n)
    }
    fn off(&mut self, s: &'static str, to: &'static str, v: u64, n: usize) {
        let at = self.pos(s);
        self.at(s).links.push((at, to.into(), n as u8, v as i64));
        let v = match (self.mach, self.garbage) {
            (true, _) => v,
            (_, true) => 0x0102_0304,
            _ => 0,
        };
        self.n(s, v, n)
    }
    /// Starts something that says its length first; the place of the length
    fn begin(&mut self, s: &'static str, wide: bool) -> u64 {
        if wide {
            self.n(s, 0xffff_ffff, 4)
        }
        let at = self.pos(s);
        self.n(s, 0, if wide { 8 } else { 4 });
        at
    }
    fn end(&mut self, s: &'static str, at: u64, wide: bool) {
        let n = if wide { 8 } else { 4 };
        let len = self.pos(s) - at - n as u64;
        self.patch(s, at, len, n)
    }
    fn text(&mut self, s: &'static str, x: &str, style: u16) -> u64 {
        let b = &mut self.at(s).b;
        let mut w = x.as_bytes().to_vec();
        w.push(0);
        // share, also the end of another one
        if style & 1 == 1 {
            if let Some(i) = b.windows(w.len()).position(|y| y == w) {
                return i as u64;
            }
        }
        if style & 2 == 2 {
            b.extend(b"more ")
        }
        let at = b.len() as u64;
        b.extend(w);
        at
    }
}
/// What is known while one unit is written
struct U<'a> {
    c: &'a Cu,
    osz: usize,
    abbrevs: Vec<(u64, bool, Vec<(u64, u64)>)>,
    /// places of entries that refer to abbreviations need nothing more: codes are given in order
    strx: Vec<u64>,
    addrx: Vec<(String, u64)>,
    lists: Vec<u64>,
    rnglists: u64,
}
impl U<'_> {
    fn str_form(&self, style: u16) -> u64 {
        if self.c.v5 {
            [0x08, 0x0e, 0x1f, 0x25, 0x26, 0x1a, 0x28, 0x0e][style as usize % 8]
        } else {
            [0x0e, 0x08, 0x0e, 0x0e][style as usize % 4]
        }
    }
    fn addr_form(&self, style: u16) -> u64 {
        if self.c.v5 {
            [0x01, 0x1b, 0x29, 0x2c, 0x01][style as usize % 5]
        } else {
            0x01
        }
    }
    fn string(&mut self, w: &mut W, form: u64, x: &str, style: u16) {
        match form {
            0x08 => w.cstr(INFO, x),
            0x0e => {
                let o = w.text(STR, x, style);
                w.off(INFO, STR, o, self.osz)
            }
            0x1f => {
                let o = w.text(LINE_STR, x, style);
                w.off(INFO, LINE_STR, o, self.osz)
            }
            _ => {
                let o = w.text(STR, x, style);
                let i = self.strx.len() as u64;
                self.strx.push(o);
                match form {
                    0x25 => w.u8(INFO, i as u8),
                    0x26 => w.n(INFO, i, 2),
                    0x28 => w.n(INFO, i, 4),
                    _ => w.uleb(INFO, i),
                }
            }
        }
    }
    fn addrx(&mut self, sym: &str, off: u64) -> u64 {
        self.addrx.push((sym.into(), off));
        self.addrx.len() as u64 - 1
    }
    fn address(&mut self, w: &mut W, form: u64, sym: &str, off: u64) {
        if form == 1 {
            return w.addr(INFO, sym, off);
        }
        let i = self.addrx(sym, off);
        match form {
            0x29 => w.u8(INFO, i as u8),
            0x2c => w.n(INFO, i, 4),
            _ => w.uleb(INFO, i),
        }
    }
    /// the entry's code
    fn die(&mut self, w: &mut W, tag: u64, kids: bool, attrs: &[(u64, u64)]) {
        let k = (tag, kids, attrs.to_vec());
        let i = match self.abbrevs.iter().position(|a| *a == k) {
            Some(i) => i,
            None => {
                self.abbrevs.push(k);
                self.abbrevs.len() - 1
            }
        };
        w.uleb(INFO, i as u64 + 1)
    }
    /// a list of ranges: its offset, or its number if there is a table
    fn ranges(&mut self, w: &mut W, rs: &[(String, u64, u64)], style: u16) -> u64 {
        let z = w.asz;
        if !self.c.v5 {
            let at = w.pos(RANGES);
            // the unit's own start may be the base
            if style & 1 == 0 && !w.mach {
                w.n(RANGES, u64::MAX, z);
                w.n(RANGES, 0, z);
            }
            for (sym, lo, hi) in rs {
                if style & 1 == 0 && !w.mach {
                    w.addr(RANGES, sym, *lo);
                    w.addr(RANGES, sym, *hi);
                } else {
                    w.n(RANGES, u64::MAX, z);
                    w.addr(RANGES, sym, 0);
                    w.n(RANGES, *lo, z);
                    w.n(RANGES, *hi, z);
                }
            }
            w.n(RANGES, 0, z);
            w.n(RANGES, 0, z);
            return at;
        }
        let at = w.pos(RNGLISTS);
        for (i, (sym, lo, hi)) in rs.iter().enumerate() {
            let kind = (style as usize / 8 + i) % if w.mach { 2 } else { 6 };
            match kind {
                0 => {
                    w.u8(RNGLISTS, 5);
                    w.addr(RNGLISTS, sym, 0);
                    w.u8(RNGLISTS, 4);
                    w.uleb(RNGLISTS, *lo);
                    w.uleb(RNGLISTS, *hi);
                }
                1 => {
                    let x = self.addrx(sym, 0);
                    w.u8(RNGLISTS, 1);
                    w.uleb(RNGLISTS, x);
                    w.u8(RNGLISTS, 4);
                    w.uleb(RNGLISTS, *lo);
                    w.uleb(RNGLISTS, *hi);
                }
                2 => {
                    w.u8(RNGLISTS, 6);
                    w.addr(RNGLISTS, sym, *lo);
                    w.addr(RNGLISTS, sym, *hi);
                }
                3 => {
                    w.u8(RNGLISTS, 7);
                    w.addr(RNGLISTS, sym, *lo);
                    w.uleb(RNGLISTS, hi - lo);
                }
                4 => {
                    let x = self.addrx(sym, *lo);
                    w.u8(RNGLISTS, 3);
                    w.uleb(RNGLISTS, x);
                    w.uleb(RNGLISTS, hi - lo);
                }
                _ => {
                    let (x, y) = (self.addrx(sym, *lo), self.addrx(sym, *hi));
                    w.u8(RNGLISTS, 2);
                    w.uleb(RNGLISTS, x);
                    w.uleb(RNGLISTS, y);
                }
            }
        }
        w.u8(RNGLISTS, 0);
        self.lists.push(at);
        if self.c.style >> 9 & 1 == 1 {
            self.lists.len() as u64 - 1
        } else {
            at
        }
    }
}
const LENS: [u8; 12] = [0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1];

fn line_table(w: &mut W, c: &Cu, fns: &[&F]) -> u64 {
    let start = w.pos(LINE);
    let osz = if c.wide { 8 } else { 4 };
    let at = w.begin(LINE, c.wide);
    w.n(LINE, if c.v5 { 5 } else { 4 }, 2);
    if c.v5 {
        let z = w.asz as u8;
        w.u8(LINE, z);
        w.u8(LINE, 0);
    }
    let hl = w.pos(LINE);
    w.n(LINE, 0, osz);
    for b in [1, 1, 1, 0xfb, 14, 13] {
        w.u8(LINE, b)
    }
    for b in LENS {
        w.u8(LINE, b)
    }
    if c.v5 {
        let form = [0x08u64, 0x1f, 0x0e][c.style as usize / 64 % 3];
        let put = |w: &mut W, x: &str| match form {
            0x08 => w.cstr(LINE, x),
            0x1f => {
                let o = w.text(LINE_STR, x, c.style);
                w.off(LINE, LINE_STR, o, osz)
            }
            _ => {
                let o = w.text(STR, x, c.style);
                w.off(LINE, STR, o, osz)
            }
        };
        w.u8(LINE, 1);
        w.uleb(LINE, 1);
        w.uleb(LINE, form);
        w.uleb(LINE, c.dirs.len() as u64);
        for d in &c.dirs {
            put(w, d)
        }
        w.u8(LINE, 2);
        w.uleb(LINE, 1);
        w.uleb(LINE, form);
        w.uleb(LINE, 2);
        w.uleb(LINE, 0x0b);
        w.uleb(LINE, c.files.len() as u64);
        for (f, d) in &c.files {
            put(w, f);
            w.u8(LINE, *d as u8);
        }
    } else {
        for d in &c.dirs[1..] {
            w.cstr(LINE, d)
        }
        w.u8(LINE, 0);
        for (f, d) in &c.files {
            w.cstr(LINE, f);
            w.uleb(LINE, *d as u64);
            w.u8(LINE, 0);
            w.u8(LINE, 0);
        }
        w.u8(LINE, 0);
    }
    let n = w.pos(LINE) - hl - osz as u64;
    w.patch(LINE, hl, n, osz);
    let first = if c.v5 { 0 } else { 1 };
    for f in fns.iter().filter(|f| !f.rows.is_empty()) {
        let set = |w: &mut W, off: u64| {
            let z = w.asz as u64;
            w.u8(LINE, 0);
            w.uleb(LINE, 1 + z);
            w.u8(LINE, 2);
            w.addr(LINE, &f.name, off);
        };
        set(w, 0);
        let (mut pc, mut line, mut file, mut col) = (0, 1i64, 1, 0);
        for (i, r) in f.rows.iter().enumerate() {
            let mut way = (f.style as usize + i) % 5;
            if r.abs {
                set(w, r.off);
                pc = r.off;
            }
            if file != r.file + first {
                file = r.file + first;
                w.u8(LINE, 4);
                w.uleb(LINE, file as u64);
            }
            if col != r.col {
                col = r.col;
                w.u8(LINE, 5);
                w.uleb(LINE, col as u64);
            }
            let (dl, dp) = (r.line as i64 - line, r.off - pc);
            // a special opcode
            let op = (dl + 5) + 14 * dp as i64 + 13;
            if way == 0 && (-5..9).contains(&dl) && op < 256 {
                w.u8(LINE, op as u8);
            } else {
                if dp == 17 && way == 1 {
                    w.u8(LINE, 8);
                    way = 9;
                }
                match way {
                    9 => {}
                    2 if dp < 0x10000 => {
                        w.u8(LINE, 9);
                        w.n(LINE, dp, 2)
                    }
                    _ if dp > 0 => {
                        w.u8(LINE, 2);
                        w.uleb(LINE, dp)
                    }
                    _ => {}
                }
                if dl != 0 {
                    w.u8(LINE, 3);
                    w.sleb(LINE, dl);
                }
                w.u8(LINE, 1);
            }
            pc = r.off;
            line = r.line as i64;
        }
        w.u8(LINE, 2);
        w.uleb(LINE, f.body.mem_len() - pc);
        for b in [0, 1, 1] {
            w.u8(LINE, b)
        }
    }
    w.end(LINE, at, c.wide);
    start
}

/// The debug sections of an object
fn write(o: &Obj, mode: Mode) -> W {
    let t = tgt(mode.target());
    let asz = match mode.arch() {
        Some(a) => a.kinds[0].1,
        None if t.big => 8,
        None => 4,
    };
    let mut w = W {
        be: !t.le,
        asz,
        mach: mode.mach(),
        garbage: o.garbage,
        secs: BTreeMap::new(),
    };
    if o.far {
        for _ in 0..20_000 {
            w.cstr(STR, "far");
        }
    }
    let mut abbrevs = vec![];
    let mut starts = vec![];
    let mut types: Vec<u64> = vec![];
    // where a type is to be entered: place, unit, its form
    let mut refs: Vec<(u64, usize)> = vec![];
    let mut abs_refs: Vec<(u64, usize)> = vec![];
    for (k, c) in o.cus.iter().enumerate() {
        let w = &mut w;
        let fns: Vec<&F> = o.fns.iter().filter(|f| f.cu == k).collect();
        let osz = if c.wide { 8 } else { 4 };
        let start = w.pos(INFO);
        starts.push(start);
        let mut u = U {
            c,
            osz,
            abbrevs: if o.shared_abbrev {
                std::mem::take(&mut abbrevs)
            } else {
                vec![]
            },
            strx: vec![],
            addrx: vec![],
            lists: vec![],
            rnglists: 0,
        };
        let at = w.begin(INFO, c.wide);
        w.n(INFO, if c.v5 { 5 } else { 4 }, 2);
        let ab = if o.shared_abbrev { 0 } else { w.pos(ABBREV) };
        if c.v5 {
            w.u8(INFO, 1);
            w.u8(INFO, asz as u8);
            w.off(INFO, ABBREV, ab, osz);
        } else {
            w.off(INFO, ABBREV, ab, osz);
            w.u8(INFO, asz as u8);
        }
        let lt = fns.iter().any(|f| !f.rows.is_empty()).then(|| line_table(w, c, &fns));
        // contributions of this unit start here; their lengths come at the end
        let s = c.style;
        let table = c.v5 && s >> 9 & 1 == 1;
        let all: Vec<(String, u64, u64)> = fns.iter().map(|f| (f.name.clone(), 0, f.body.mem_len())).collect();
        let with_ranges = c.ranges && !all.is_empty();
        let lists = with_ranges as usize
            + fns
                .iter()
                .filter(|f| f.block.as_ref().is_some_and(|b| b.len() > 1))
                .count();
        let mut rl = None;
        if c.v5 && lists > 0 {
            let at = w.begin(RNGLISTS, c.wide);
            w.n(RNGLISTS, 5, 2);
            w.u8(RNGLISTS, asz as u8);
            w.u8(RNGLISTS, 0);
            w.n(RNGLISTS, if table { lists as u64 } else { 0 }, 4);
            u.rnglists = w.pos(RNGLISTS);
            if table {
                for _ in 0..lists {
                    w.n(RNGLISTS, 0, osz)
                }
            }
            rl = Some(at);
        }
        let mut so = None;
        let mut ad = None;
        let form = u.str_form(s >> 1);
        let mut attrs = vec![(0x25, form), (0x13, 0x05), (0x03, form), (0x1b, form)];
        if lt.is_some() {
            attrs.push((0x10, 0x17));
        }
        if c.v5 {
            // string offsets, addresses
            attrs.push((0x72, 0x17));
            attrs.push((0x73, 0x17));
            let at = w.begin(STR_OFFS, c.wide);
            w.n(STR_OFFS, 5, 2);
            w.n(STR_OFFS, 0, 2);
            so = Some((at, w.pos(STR_OFFS)));
            let at = w.begin(ADDR, c.wide);
            w.n(ADDR, 5, 2);
            w.u8(ADDR, asz as u8);
            w.u8(ADDR, 0);
            ad = Some((at, w.pos(ADDR)));
        }
        if table && lists > 0 {
            attrs.push((0x74, 0x17));
        }
        let rform = if table { 0x23 } else { 0x17 };
        let one = !with_ranges && fns.len() == 1;
        if with_ranges {
            attrs.push((0x11, 0x01));
            attrs.push((0x55, rform));
        } else if one {
            attrs.push((0x11, 0x01));
            attrs.push((0x12, 0x07));
        }
        u.die(w, 0x11, true, &attrs);
        u.string(w, form, "producer", s);
        w.n(INFO, 0x0c, 2);
        u.string(w, form, &c.name, s);
        u.string(w, form, &c.dir, s);
        if let Some(l) = lt {
            w.off(INFO, LINE, l, osz)
        }
        if let (Some(so), Some(ad)) = (so, ad) {
            w.off(INFO, STR_OFFS, so.1, osz);
            w.off(INFO, ADDR, ad.1, osz);
        }
        if table && lists > 0 {
            let r = u.rnglists;
            w.off(INFO, RNGLISTS, r, osz)
        }
        let range = |u: &mut U, w: &mut W, rs: &[(String, u64, u64)], style: u16| {
            let v = u.ranges(w, rs, style);
            if table {
                w.uleb(INFO, v)
            } else if c.v5 {
                w.off(INFO, RNGLISTS, v, osz)
            } else {
                w.off(INFO, RANGES, v, osz)
            }
        };
        if with_ranges {
            w.n(INFO, 0, asz);
            range(&mut u, w, &all, s >> 3);
        } else if one {
            w.addr(INFO, &all[0].0, 0);
            w.n(INFO, all[0].2, 8);
        }
        for ty in &c.types {
            types.push(w.pos(INFO));
            let form = u.str_form(s >> 4);
            u.die(w, 0x24, false, &[(0x03, form), (0x3e, 0x0b), (0x0b, 0x0b)]);
            u.string(w, form, ty, s);
            w.u8(INFO, 5);
            w.u8(INFO, 4);
        }
        for f in &fns {
            let len = f.body.mem_len();
            let st = f.style;
            let (sf, af) = (u.str_form(st), u.addr_form(st >> 3));
            let hf = [0x06, 0x07, 0x0f, 0x01][(st >> 6) as usize % if w.mach { 3 } else { 4 }];
            let b = f.block.as_deref().unwrap_or(&[]);
            u.die(
                w,
                0x2e,
                !b.is_empty(),
                &[(0x03, sf), (0x11, af), (0x12, hf), (0x3f, 0x19)],
            );
            u.string(w, sf, &f.name, st >> 8);
            u.address(w, af, &f.name, 0);
            match hf {
                0x06 => w.n(INFO, len, 4),
                0x07 => w.n(INFO, len, 8),
                0x0f => w.uleb(INFO, len),
                _ => w.addr(INFO, &f.name, len),
            }
            match b {
                [] => continue,
                [(lo, hi)] if !w.mach || *lo == 0 => {
                    let af = u.addr_form(st >> 10);
                    u.die(w, 0x0b, false, &[(0x11, af), (0x12, 0x0f)]);
                    u.address(w, af, &f.name, *lo);
                    w.uleb(INFO, hi - lo);
                }
                [_] => {}
                b => {
                    u.die(w, 0x0b, false, &[(0x55, rform)]);
                    let rs: Vec<_> = b.iter().map(|b| (f.name.clone(), b.0, b.1)).collect();
                    range(&mut u, w, &rs, st >> 4);
                }
            }
            w.u8(INFO, 0);
        }
        for v in o.vars.iter().filter(|v| v.cu == k) {
            let st = v.style;
            let sf = u.str_form(st);
            let x = c.v5 && st >> 4 & 1 == 1;
            let absolute = v.ty != k || st >> 3 & 1 == 1;
            let mut attrs = vec![(0x03, sf), (0x49, if absolute { 0x10 } else { 0x13 }), (0x02, 0x18)];
            // the reader shows no expressions' relocations and no table's entries
            let again = mode.object() || x && !w.mach;
            if again {
                attrs.push((0x52, if x { 0x1b } else { 0x01 }));
            }
            u.die(w, 0x34, false, &attrs);
            u.string(w, sf, &v.name, st >> 8);
            let p = w.pos(INFO);
            if absolute {
                abs_refs.push((p, v.ty));
                // its length is the unit's offset size
                w.n(INFO, 0, osz);
            } else {
                refs.push((p, v.ty));
                w.n(INFO, 0, 4);
            }
            if x {
                let i = u.addrx(&v.name, v.off);
                let n = if i < 0x80 { 2 } else { 3 };
                w.uleb(INFO, n);
                w.u8(INFO, 0xa1);
                w.uleb(INFO, i);
            } else {
                w.uleb(INFO, 1 + asz as u64);
                w.u8(INFO, 3);
                w.addr(INFO, &v.name, v.off);
            }
            if again {
                u.address(w, if x { 0x1b } else { 0x01 }, &v.name, v.off);
            }
        }
        w.u8(INFO, 0);
        w.end(INFO, at, c.wide);
        if let Some(at) = rl {
            if table {
                for (i, l) in u.lists.clone().into_iter().enumerate() {
                    let p = u.rnglists + (i * osz) as u64;
                    let v = l - u.rnglists;
                    w.patch(RNGLISTS, p, v, osz);
                }
            }
            w.end(RNGLISTS, at, c.wide);
        }
        if let (Some(so), Some(ad)) = (so, ad) {
            for o in &u.strx {
                w.off(STR_OFFS, STR, *o, osz)
            }
            w.end(STR_OFFS, so.0, c.wide);
            for (sym, off) in &u.addrx {
                w.addr(ADDR, sym, *off)
            }
            w.end(ADDR, ad.0, c.wide);
        }
        if o.shared_abbrev {
            abbrevs = u.abbrevs;
        } else {
            put_abbrevs(w, &u.abbrevs);
        }
        if o.aranges && !all.is_empty() {
            let a0 = w.pos(ARANGES);
            let at = w.begin(ARANGES, c.wide);
            w.n(ARANGES, 2, 2);
            w.off(ARANGES, INFO, start, osz);
            w.u8(ARANGES, asz as u8);
            w.u8(ARANGES, 0);
            while (w.pos(ARANGES) - a0) % (2 * asz as u64) != 0 {
                w.u8(ARANGES, 0)
            }
            for (sym, lo, hi) in &all {
                w.addr(ARANGES, sym, *lo);
                w.n(ARANGES, hi - lo, asz);
            }
            w.n(ARANGES, 0, asz);
            w.n(ARANGES, 0, asz);
            w.end(ARANGES, at, c.wide);
        }
        // references inside of this unit
        for (p, ty) in refs.drain(..) {
            let v = types[ty] - start;
            w.patch(INFO, p, v, 4);
        }
    }
    for (p, ty) in abs_refs {
        let cu = starts.iter().rposition(|s| *s <= p).unwrap();
        let osz = if o.cus[cu].wide { 8 } else { 4 };
        let v = types[ty];
        w.at(INFO).links.push((p, INFO.into(), osz as u8, v as i64));
        if w.mach {
            w.patch(INFO, p, v, osz)
        }
    }
    if o.shared_abbrev {
        put_abbrevs(&mut w, &abbrevs);
    }
    if o.frame {
        let w = &mut w;
        let pad = |w: &mut W, at: u64| {
            while (w.pos(FRAME) - at - 4) % asz as u64 != 0 {
                w.u8(FRAME, 0)
            }
            w.end(FRAME, at, false)
        };
        for f in &o.fns {
            let cie = w.pos(FRAME);
            let at = w.begin(FRAME, false);
            w.n(FRAME, 0xffff_ffff, 4);
            for b in [4, 0, asz as u8, 0, 1, 0x78, 16] {
                w.u8(FRAME, b)
            }
            pad(w, at);
            let at = w.begin(FRAME, false);
            w.off(FRAME, FRAME, cie, 4);
            w.addr(FRAME, &f.name, 0);
            w.n(FRAME, f.body.mem_len(), asz);
            pad(w, at);
        }
    }
    if o.eh && !o.fns.is_empty() {
        let w = &mut w;
        let pad = |w: &mut W, at: u64| {
            while (w.pos(EH) - at) % 8 != 0 {
                w.u8(EH, 0)
            }
            w.end(EH, at, false)
        };
        let cie = w.pos(EH);
        let at = w.begin(EH, false);
        w.n(EH, 0, 4);
        for b in [1, b'z', b'R', 0, 1, 0x78, 16, 1, 0x1b, 0x0c, 7, 8, 0x90, 1] {
            w.u8(EH, b)
        }
        pad(w, at);
        for f in &o.fns {
            let at = w.begin(EH, false);
            let p = w.pos(EH);
            w.n(EH, p - cie, 4);
            let p = w.pos(EH);
            w.at(EH).pcrel.push((p, f.name.clone()));
            w.n(EH, 0, 4);
            w.n(EH, f.body.mem_len(), 4);
            w.u8(EH, 0);
            pad(w, at);
        }
    }
    w
}
fn put_abbrevs(w: &mut W, a: &[(u64, bool, Vec<(u64, u64)>)]) {
    for (i, (tag, kids, attrs)) in a.iter().enumerate() {
        w.uleb(ABBREV, i as u64 + 1);
        w.uleb(ABBREV, *tag);
        w.u8(ABBREV, *kids as u8);
        for (a, f) in attrs {
            w.uleb(ABBREV, *a);
            w.uleb(ABBREV, *f);
        }
        w.u8(ABBREV, 0);
        w.u8(ABBREV, 0);
    }
    w.u8(ABBREV, 0);
}
/// Mach-O section names have sixteen bytes
fn sec_name(s: &str, mach: bool) -> String {
    if mach && s == STR_OFFS {
        ".debug_str_offs".into()
    } else {
        s.into()
    }
}
/// The history that makes the object
fn case(o: &Obj, mode: Mode) -> Case {
    let w = write(o, mode);
    let mut mix = Mix::new(o.order as u64);
    let mut ops = vec![];
    let mut defs: Vec<(String, D, Body)> = vec![];
    for f in &o.fns {
        defs.push((f.name.clone(), f.d, f.body.clone()));
    }
    for v in &o.vars {
        defs.push((v.name.clone(), v.d, v.body.clone()));
    }
    for (n, b) in &w.secs {
        let (kind, align) = if *n == EH {
            (SKind::Data, Some(3))
        } else {
            (SKind::Debug, [None, Some(0)][mix.below(2)])
        };
        let d = D::Sec { kind, s: false, align };
        defs.push((sec_name(n, mode.mach()), d, Body::Raw(b.b.clone())));
    }
    for i in (1..defs.len()).rev() {
        let j = mix.below(i + 1);
        defs.swap(i, j);
    }
    for (n, d, _) in &defs {
        ops.push(Op::Declare {
            name: n.clone(),
            d: *d,
            style: mix.below(16) as u8,
            api: 0,
        });
    }
    for (n, _, b) in defs {
        ops.push(Op::Define {
            name: n,
            body: b,
            syms: vec![],
            api: 0,
        });
    }
    let mut links = vec![];
    for (n, b) in &w.secs {
        let from = sec_name(n, mode.mach());
        for (at, to, size, addend) in &b.links {
            let rel = match mode.arch() {
                None => Rel::Debug {
                    size: *size,
                    addend: *addend as i32,
                },
                Some(a) => Rel::Raw {
                    reloc: a
                        .kinds
                        .iter()
                        .find(|k| k.1 == *size as usize && !k.2)
                        .expect("harness: size")
                        .0,
                    addend: *addend as i32,
                },
            };
            let to = if w.secs.contains_key(to.as_str()) {
                // nothing that Mach-O needs to be told
                if mode.mach() && mix.below(3) == 0 {
                    continue;
                }
                sec_name(to, mode.mach())
            } else {
                to.clone()
            };
            links.push(Op::Link {
                from: from.clone(),
                to,
                at: *at,
                rel,
            });
        }
        for (at, to) in &b.pcrel {
            links.push(Op::Link {
                from: from.clone(),
                to: to.clone(),
                at: *at,
                rel: Rel::Raw { reloc: 2, addend: 0 },
            });
        }
    }
    // (gold wants those of .eh_frame in the order of their places)
    if mix.below(2) == 0 && !o.eh {
        for i in (1..links.len()).rev() {
            let j = mix.below(i + 1);
            links.swap(i, j);
        }
    }
    ops.extend(links);
    Case {
        target: mode.target(),
        name: o.name.clone(),
        ops,
    }
}

// ------------------------------------------------------------------ reading

/// The text between the outer quotes
fn quoted(l: &str) -> Option<String> {
    let (a, b) = (l.find('"')?, l.rfind('"')?);
    (b > a).then(|| l[a + 1..b].to_string())
}
fn hex(s: &str) -> Option<u64> {
    let s = s.trim_start_matches(['(', '[']);
    let s = s.strip_prefix("0x")?;
    let e = s.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(s.len());
    u64::from_str_radix(&s[..e], 16).ok()
}
/// An address and the section that goes with it in an object
fn address(l: &str, object: bool) -> Option<String> {
    // the last number before the section's name
    let h = match l.find('"') {
        Some(i) => &l[..i],
        None => l,
    };
    let a = hex(&h[h.rfind("0x")?..])?;
    match (object, quoted(l)) {
        (true, Some(s)) => Some(format!("{s}+{a:#x}")),
        _ => Some(format!("{a:#x}")),
    }
}
fn add(a: &str, n: u64) -> String {
    match a.rfind("0x").map(|i| (&a[..i], hex(&a[i..]))) {
        Some((s, Some(v))) => format!("{s}{:#x}", v.wrapping_add(n)),
        _ => format!("{a}?"),
    }
}
#[derive(Default, Debug)]
struct DCu {
    at: u64,
    name: String,
    dir: String,
    stmt: Option<u64>,
    facts: Vec<String>,
}
#[derive(Default)]
struct DLine {
    at: u64,
    v5: bool,
    dirs: BTreeMap<usize, String>,
    files: BTreeMap<usize, (String, usize)>,
    rows: Vec<(u64, u64, u64, usize, bool)>,
}
#[derive(Default)]
struct Die {
    tag: String,
    name: String,
    lo: String,
    hi: Option<(bool, String)>,
    loc: String,
    ty: String,
    ranges: Vec<(String, String)>,
}
fn finish(d: &mut Option<Die>, c: &mut Option<DCu>) {
    let (Some(d), Some(c)) = (d.take(), c.as_mut()) else {
        return;
    };
    let hi = d.hi.as_ref().map(|h| match h {
        (true, v) => v.clone(),
        (false, v) => {
            let n = hex(v).or_else(|| v.trim_end_matches(')').parse().ok());
            n.map_or("?".into(), |n| add(&d.lo, n))
        }
    });
    match d.tag.as_str() {
        "DW_TAG_compile_unit" => {
            for (a, b) in &d.ranges {
                c.facts.push(format!("range {a} {b}"));
            }
            if let Some(h) = hi {
                c.facts.push(format!("range {} {h}", d.lo));
            }
        }
        "DW_TAG_subprogram" => c
            .facts
            .push(format!("function {} {} {}", d.name, d.lo, hi.unwrap_or_default())),
        "DW_TAG_lexical_block" => {
            for (a, b) in &d.ranges {
                c.facts.push(format!("block {a} {b}"));
            }
            if let Some(h) = hi {
                c.facts.push(format!("block {} {h}", d.lo));
            }
        }
        "DW_TAG_variable" => c.facts.push(format!("variable {} {} {}", d.name, d.loc, d.ty)),
        "DW_TAG_base_type" => c.facts.push(format!("type {}", d.name)),
        t => c.facts.push(t.to_string()),
    }
}
/// What the reader says, as a list of facts
fn facts(out: &str, object: bool) -> Result<Vec<String>, String> {
    let mut cus: Vec<DCu> = vec![];
    let mut lines: Vec<DLine> = vec![];
    let mut all: Vec<String> = vec![];
    let mut cur: Option<DCu> = None;
    let mut die: Option<Die> = None;
    let mut part = "";
    let mut in_file = None;
    let mut arange_cu = 0;
    let mut aranges = vec![];
    for l in out.lines() {
        let x = l.trim();
        if let Some(s) = l.strip_suffix(" contents:").filter(|s| s.starts_with('.')) {
            finish(&mut die, &mut cur);
            cus.extend(cur.take());
            part = match s {
                ".debug_info" => "info",
                ".debug_line" => "line",
                ".debug_aranges" => "aranges",
                ".debug_frame" => "frame",
                ".eh_frame" => "eh",
                _ => "",
            };
            continue;
        }
        match part {
            "info" => {
                if let Some(i) = l.find(": Compile Unit:") {
                    finish(&mut die, &mut cur);
                    cus.extend(cur.take());
                    cur = Some(DCu {
                        at: hex(&l[..i]).ok_or("llvm-dwarfdump prints no readable unit")?,
                        ..DCu::default()
                    });
                    continue;
                }
                if let Some(i) = x.find("DW_TAG_") {
                    finish(&mut die, &mut cur);
                    let tag = x[i..].split_whitespace().next().unwrap_or("").to_string();
                    die = Some(Die { tag, ..Die::default() });
                    continue;
                }
                let Some(d) = die.as_mut() else {
                    continue;
                };
                if x.starts_with("[0x") {
                    let (a, b) = x.split_once(", ").ok_or("llvm-dwarfdump prints no readable range")?;
                    // the section's name follows the pair
                    let sec = quoted(b)
                        .filter(|_| object)
                        .map(|s| format!("{s}+"))
                        .unwrap_or_default();
                    let (a, b) = (
                        hex(a).ok_or("llvm-dwarfdump prints no readable range")?,
                        hex(b).ok_or("llvm-dwarfdump prints no readable range")?,
                    );
                    d.ranges.push((format!("{sec}{a:#x}"), format!("{sec}{b:#x}")));
                    continue;
                }
                let Some((at, v)) = x.split_once(char::is_whitespace) else {
                    continue;
                };
                let v = v.trim();
                let root = d.tag == "DW_TAG_compile_unit";
                let c = cur
                    .as_mut()
                    .ok_or("llvm-dwarfdump prints no readable an entry outside of a unit")?;
                let body = &v[v.find('(').unwrap_or(0)..];
                match at {
                    "DW_AT_name" => {
                        let n = quoted(body).unwrap_or_default();
                        if root {
                            c.name = n.clone()
                        }
                        d.name = n
                    }
                    "DW_AT_comp_dir" => c.dir = quoted(body).unwrap_or_default(),
                    "DW_AT_stmt_list" => c.stmt = hex(body),
                    "DW_AT_low_pc" => d.lo = address(body, object).unwrap_or_default(),
                    "DW_AT_high_pc" => {
                        let a = v.contains("DW_FORM_addr");
                        let t = if a {
                            address(body, object)
                        } else {
                            Some(body[1..].to_string())
                        };
                        d.hi = Some((a, t.unwrap_or_default()))
                    }
                    "DW_AT_entry_pc" => d.loc = address(body, object).unwrap_or_default(),
                    "DW_AT_location" if d.loc.is_empty() => d.loc = address(body, object).unwrap_or_default(),
                    "DW_AT_type" => d.ty = quoted(body).unwrap_or_default(),
                    _ => {}
                }
            }
            "line" => {
                if let Some(v) = x.strip_prefix("debug_line[") {
                    lines.push(DLine {
                        at: hex(v).ok_or("llvm-dwarfdump prints no readable line table")?,
                        ..DLine::default()
                    });
                    continue;
                }
                let Some(t) = lines.last_mut() else {
                    continue;
                };
                let num = |s: &str| -> Option<usize> { s.split(']').next()?.trim().parse().ok() };
                if let Some(v) = x.strip_prefix("version: ") {
                    t.v5 = v == "5"
                } else if let Some(v) = x.strip_prefix("include_directories[") {
                    if let (Some(i), Some(q)) = (num(v), quoted(v)) {
                        t.dirs.insert(i, q);
                    }
                } else if let Some(v) = x.strip_prefix("file_names[") {
                    in_file = num(v);
                } else if let (Some(v), Some(i)) = (x.strip_prefix("name: "), in_file) {
                    t.files.entry(i).or_default().0 = quoted(v).unwrap_or_default();
                } else if let (Some(v), Some(i)) = (x.strip_prefix("dir_index: "), in_file) {
                    t.files.entry(i).or_default().1 =
                        v.parse().map_err(|_| "llvm-dwarfdump prints no readable directory")?;
                } else if x.starts_with("0x") && x.len() > 18 && x.as_bytes()[18] == b' ' {
                    let f: Vec<&str> = x.split_whitespace().collect();
                    let n: Vec<u64> = f[1..].iter().map_while(|v| v.parse().ok()).collect();
                    if n.len() >= 3 {
                        let end = f.contains(&"end_sequence");
                        t.rows.push((
                            hex(f[0]).ok_or("llvm-dwarfdump prints no readable row")?,
                            n[0],
                            n[1],
                            n[2] as usize,
                            end,
                        ));
                    }
                }
            }
            "aranges" => {
                if let Some(i) = x.find("cu_offset = ") {
                    arange_cu = hex(&x[i + 12..]).ok_or("llvm-dwarfdump prints no readable aranges")?;
                } else if x.starts_with("[0x") {
                    let (a, b) = x.split_once(", ").ok_or("llvm-dwarfdump prints no readable arange")?;
                    let (a, b) = (
                        hex(a).ok_or("llvm-dwarfdump prints no readable range")?,
                        hex(b).ok_or("llvm-dwarfdump prints no readable range")?,
                    );
                    aranges.push((arange_cu, a, b));
                }
            }
            "frame" | "eh" => {
                if let (true, Some(i)) = (x.contains(" FDE "), x.find("pc=")) {
                    let (a, b) = x[i + 3..]
                        .split_once("...")
                        .ok_or("llvm-dwarfdump prints no readable frame")?;
                    let n = |s| u64::from_str_radix(s, 16).map_err(|_| "llvm-dwarfdump prints no readable frame");
                    all.push(format!("{part} {:#x} {:#x}", n(a)?, n(b.trim())?));
                }
            }
            _ => {}
        }
    }
    finish(&mut die, &mut cur);
    cus.extend(cur.take());
    for c in &cus {
        all.push(format!("{} in {}", c.name, c.dir));
        all.extend(c.facts.iter().map(|f| format!("{} {f}", c.name)));
        if let Some(s) = c.stmt {
            let t = lines.iter().find(|t| t.at == s).ok_or(format!(
                "unit {} has line numbers at {s:#x}, where there are none",
                c.name
            ))?;
            for (a, line, col, f, end) in &t.rows {
                if *end {
                    all.push(format!("{} end {a:#x}", c.name));
                    continue;
                }
                let f = t.files.get(f).cloned().unwrap_or_default();
                let d = match (t.v5, f.1) {
                    (false, 0) => c.dir.clone(),
                    (_, i) => t.dirs.get(&i).cloned().unwrap_or_default(),
                };
                all.push(format!("{} row {a:#x} {d}/{} {line}:{col}", c.name, f.0));
            }
        }
    }
    for (cu, a, b) in aranges {
        let c = cus.iter().find(|c| c.at == cu);
        let n = c.map_or(format!("(no unit at {cu:#x})"), |c| c.name.clone());
        all.push(format!("{n} arange {a:#x} {b:#x}"));
    }
    all.sort();
    Ok(all)
}

// ------------------------------------------------------------------ comparing

/// What was written, given where everything is: address and section for entries
type Where<'a> = &'a dyn Fn(usize, &str) -> Result<(String, u64), String>;
fn expected(x: &Dw, adr: Where) -> Result<Vec<String>, String> {
    let mut all = vec![];
    let full = |s: &str, a: u64| format!("{s}{a:#x}");
    let mach = x.mode.mach();
    for (oi, o) in x.objs.iter().enumerate() {
        for (k, c) in o.cus.iter().enumerate() {
            let n = &c.name;
            all.push(format!("{n} in {}", c.dir));
            let fns: Vec<&F> = o.fns.iter().filter(|f| f.cu == k).collect();
            for t in &c.types {
                all.push(format!("{n} type {t}"));
            }
            for f in &fns {
                let (s, a) = adr(oi, &f.name)?;
                let len = f.body.mem_len();
                let (lo, hi) = (full(&s, a), full(&s, a + len));
                if c.ranges || fns.len() == 1 {
                    all.push(format!("{n} range {lo} {hi}"));
                }
                all.push(format!("{n} function {} {lo} {hi}", f.name));
                let b = f.block.as_deref().unwrap_or(&[]);
                for (lo, hi) in b.iter().filter(|r| !mach || b.len() > 1 || r.0 == 0) {
                    all.push(format!("{n} block {} {}", full(&s, a + lo), full(&s, a + hi)));
                }
                for r in &f.rows {
                    let (file, d) = &c.files[r.file];
                    all.push(format!(
                        "{n} row {:#x} {}/{file} {}:{}",
                        a + r.off,
                        c.dirs[*d],
                        r.line,
                        r.col
                    ));
                }
                if !f.rows.is_empty() {
                    all.push(format!("{n} end {:#x}", a + len));
                }
                if o.aranges {
                    all.push(format!("{n} arange {a:#x} {:#x}", a + len));
                }
            }
            for v in o.vars.iter().filter(|v| v.cu == k) {
                let (s, a) = adr(oi, &v.name)?;
                let ty = &o.cus[v.ty].types[0];
                all.push(format!("{n} variable {} {} {ty}", v.name, full(&s, a + v.off)));
            }
        }
        for f in &o.fns {
            let (_, a) = adr(oi, &f.name)?;
            let b = a + f.body.mem_len();
            if o.frame {
                all.push(format!("frame {a:#x} {b:#x}"));
            }
            if o.eh {
                all.push(format!("eh {a:#x} {b:#x}"));
            }
        }
    }
    all.sort();
    Ok(all)
}
fn compare(want: &[String], got: &[String]) -> Result<(), String> {
    let (mut i, mut j) = (0, 0);
    let (mut lost, mut new) = (vec![], vec![]);
    while i < want.len() || j < got.len() {
        match (want.get(i), got.get(j)) {
            (Some(a), Some(b)) if a == b => {
                i += 1;
                j += 1
            }
            (Some(a), Some(b)) if a < b => {
                lost.push(a);
                i += 1
            }
            (Some(a), None) => {
                lost.push(a);
                i += 1
            }
            (_, Some(b)) => {
                new.push(b);
                j += 1
            }
            (None, None) => break,
        }
    }
    ensure!(
        lost.is_empty() && new.is_empty(),
        "debug information: {:?} is not there, {:?} is there instead",
        &lost[..lost.len().min(4)],
        &new[..new.len().min(4)]
    );
    Ok(())
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
const LIMIT: Duration = Duration::from_secs(60);
/// Ok(None): no answer in time
fn tool(c: &mut Command, dir: &Path) -> Result<Option<(bool, Vec<u8>, String)>, String> {
    match run(c, &dir.join("err"), LIMIT) {
        Ran::Done(d) => Ok(Some((
            d.ok,
            d.out,
            d.err.lines().take(4).collect::<Vec<_>>().join(" | "),
        ))),
        Ran::NoStart(e) => Err(format!("harness: {c:?}: {e}")),
        Ran::Late => Ok(None),
    }
}
fn dump(x: &Dw, f: &Path, dir: &Path) -> Result<Option<Vec<String>>, String> {
    let mut c = Command::new("/usr/bin/llvm-dwarfdump-18");
    c.args(["-v", "--debug-info", "--debug-line"]);
    if x.objs.iter().any(|o| o.aranges) {
        c.arg("--debug-aranges");
    }
    if x.objs.iter().any(|o| o.frame) {
        c.arg("--debug-frame");
    }
    if x.objs.iter().any(|o| o.eh) {
        c.arg("--eh-frame");
    }
    let Some((ok, out, err)) = tool(c.arg(f), dir)? else {
        return Ok(None);
    };
    ensure!(ok && err.is_empty(), "the debug information is not readable: {err}");
    let out = String::from_utf8_lossy(&out);
    if let Some(k) = std::env::var_os("VERIF_KEEP") {
        let _ = std::fs::write(Path::new(&k).join("dump"), out.as_bytes());
    }
    facts(&out, x.mode == Mode::ElfObject).map(Some)
}
fn linked(x: &Dw, dir: &Path, objs: &[PathBuf]) -> Result<Option<PathBuf>, String> {
    let out = dir.join("out");
    let fail = |c: &Command, e: String| Err(format!("{:?} rejects an object: {e}", c.get_program()));
    let mut c;
    match x.mode {
        Mode::Elf(ld, kind, how) => {
            let mut files = objs.to_vec();
            if how == 1 {
                // first one object of them all
                let r = dir.join("r.o");
                let mut c = Command::new(LINKERS[ld]);
                c.arg("-r").arg("-o").arg(&r).args(objs);
                match tool(&mut c, dir)? {
                    None => return Ok(None),
                    Some((false, _, e)) => return fail(&c, e),
                    _ => files = vec![r],
                }
            }
            c = Command::new(LINKERS[ld]);
            c.args(match kind {
                0 => &["-static", "-e", "entry"][..],
                1 => &["-pie", "-e", "entry"],
                _ => &["-shared", "-Bsymbolic"],
            });
            if how == 2 {
                c.arg("--compress-debug-sections=zlib");
            }
            if how == 3 {
                c.arg("--eh-frame-hdr");
            }
            c.arg("-o").arg(&out).args(&files);
            match tool(&mut c, dir)? {
                None => return Ok(None),
                Some((false, _, e)) => return fail(&c, e),
                _ => {}
            }
            if how == 4 {
                let exe = ["/usr/bin/objcopy", "/usr/bin/llvm-objcopy-18"][kind as usize % 2];
                let mut c = Command::new(exe);
                c.arg("--compress-debug-sections").arg(&out);
                match tool(&mut c, dir)? {
                    None => return Ok(None),
                    Some((false, _, e)) => return fail(&c, e),
                    _ => {}
                }
            }
            return Ok(Some(out));
        }
        Mode::Arch(_) => {
            c = Command::new("/usr/bin/ld.lld-18");
            c.args(["-static", "-e", "entry", "-o"]).arg(&out).args(objs);
        }
        _ => return Err("harness: nothing to link".into()),
    }
    match tool(&mut c, dir)? {
        None => Ok(None),
        Some((false, _, e)) => fail(&c, e),
        _ => Ok(Some(out)),
    }
}

pub fn c29(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let x = decode_dw(t);
    let dir = Dir(cx.tmp("dwarf"));
    let io = |e: std::io::Error| format!("harness: {e}");
    std::fs::create_dir_all(&dir.0).map_err(io)?;
    let mut objs = vec![];
    for o in &x.objs {
        let k = case(o, x.mode);
        let mut a = k.artifact();
        for op in &k.ops {
            if let Err(e) = call(&mut a, op)? {
                return Err(format!("{op:?} refused: {e}"));
            }
        }
        let f = if x.mode.mach() { MACHO } else { ELF };
        let b = emit_as(&a, f).bytes("emission of a complete artifact")?;
        let f = dir.0.join(&o.name);
        std::fs::write(&f, b).map_err(io)?;
        objs.push(f);
    }
    let keep = |f: &Path| {
        if let Some(k) = std::env::var_os("VERIF_KEEP") {
            let _ = std::fs::copy(f, Path::new(&k).join(f.file_name().unwrap()));
        }
    };
    objs.iter().for_each(|f| keep(f));
    let none = |cx: &mut Cx| {
        cx.add("runs without an answer", 1);
        Ok(())
    };
    let mut out = objs[0].clone();
    let want;
    match x.mode {
        Mode::ElfObject => {
            let w = |_: usize, n: &str| -> Result<(String, u64), String> {
                let f = x.objs[0].fns.iter().any(|f| f.name == n);
                let p = match x.objs[0].vars.iter().find(|v| v.name == n) {
                    _ if f => ".text",
                    Some(V {
                        body: Body::Zero(_), ..
                    }) => ".bss",
                    Some(V {
                        d: D::Data { w: true, .. },
                        ..
                    }) => ".data",
                    _ => ".rodata",
                };
                Ok((format!("{p}.{n}+"), 0))
            };
            want = expected(&x, &w)?;
        }
        Mode::MachObject(_) => {
            let b = std::fs::read(&objs[0]).map_err(io)?;
            let m = mach::parse(&b)?;
            // the reader leaves relocations that name a symbol alone
            let mut p = b.clone();
            for s in m.secs.iter().filter(|s| s.seg.starts_with(b"__DWARF")) {
                for r in &s.rels {
                    ensure!(r.ext && !r.pcrel && r.typ == 0, "a debug section's relocation: {r:?}");
                    let y = m.syms.get(r.sym as usize).ok_or("a relocation without a symbol")?;
                    let (o, n) = (s.off as usize + r.addr as usize, 1 << r.len);
                    let b = p.get_mut(o..o + n).ok_or("a relocation outside")?;
                    let old = if m.le {
                        le(b)
                    } else {
                        b.iter().fold(0, |a, x| a << 8 | *x as u64)
                    };
                    let v = old.wrapping_add(y.value);
                    if m.le {
                        b.copy_from_slice(&v.to_le_bytes()[..n])
                    } else {
                        b.copy_from_slice(&v.to_be_bytes()[8 - n..])
                    }
                }
            }
            out = dir.0.join("out");
            std::fs::write(&out, p).map_err(io)?;
            let w = |_: usize, n: &str| -> Result<(String, u64), String> {
                let y = m
                    .syms
                    .iter()
                    .find(|y| y.name.get(1..) == Some(n.as_bytes()) && !y.undefined())
                    .ok_or(format!("no symbol for {n:?}"))?;
                Ok((String::new(), y.value))
            };
            want = expected(&x, &w)?;
        }
        _ => {
            let Some(f) = linked(&x, &dir.0, &objs)? else {
                return none(cx);
            };
            out = f;
            keep(&out);
            let b = std::fs::read(&out).map_err(io)?;
            {
                let m = Img::parse(b)?;
                let w = |o: usize, n: &str| {
                    let own = &x.objs[o];
                    let local = |d: &D| d.scope() == Scope::Local;
                    let l = own.fns.iter().any(|f| f.name == n && local(&f.d))
                        || own.vars.iter().any(|v| v.name == n && local(&v.d));
                    let c: Vec<u64> = m
                        .syms
                        .iter()
                        .filter(|y| y.name == n && y.shndx != 0 && (!l || y.file == own.name))
                        .map(|y| y.value)
                        .collect();
                    ensure!(!c.is_empty(), "no symbol for {n:?} in the linked image");
                    ensure!(c.iter().all(|a| *a == c[0]), "symbols for {n:?} at {c:x?}");
                    Ok((String::new(), c[0]))
                };
                want = expected(&x, &w)?;
            }
        }
    }
    let Some(got) = dump(&x, &out, &dir.0)? else {
        return none(cx);
    };
    compare(&want, &got)?;
    cx.class(&match x.mode {
        Mode::Elf(l, k, h) => format!(
            "{} {}, {}",
            &LINKERS[l][9..],
            ["static", "pie", "shared"][k as usize],
            [
                "plain",
                "after a partial link",
                "compressed",
                "with a header",
                "compressed later",
                "plain"
            ][h as usize]
        ),
        Mode::ElfObject => "ELF object".into(),
        Mode::Arch(i) => ARCHS[i].target.to_string(),
        Mode::MachObject(_) => "Mach-O object".into(),
    });
    for c in x.objs.iter().flat_map(|o| &o.cus) {
        cx.class(if c.v5 { "unit of DWARF 5" } else { "unit of DWARF 4" });
        cx.class_if(c.wide, "unit of 64-bit DWARF");
    }
    cx.class_if(x.objs.iter().any(|o| o.far), "offsets over 16 bits");
    cx.class_if(x.objs.iter().any(|o| o.garbage), "other content where links are");
    cx.add("facts compared", want.len() as u64);
    if want.len() >= 12 {
        cx.nontrivial(&x, || c29_show(t));
    }
    Ok(())
}
