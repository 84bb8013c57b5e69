//! An independent, strict ELF reader. `parse` needs only what is necessary to read the object;
//! `validate` checks everything the format demands of a relocatable object.
use crate::spec::Tgt;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Sec {
    pub name: Vec<u8>,
    pub name_off: u32,
    pub typ: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sym {
    pub name: Vec<u8>,
    pub name_off: u32,
    pub info: u8,
    pub other: u8,
    /// section index with the extended numbering resolved; reserved values are kept in `special`
    pub shndx: u32,
    pub raw_shndx: u16,
    pub value: u64,
    pub size: u64,
}
impl Sym {
    pub fn bind(&self) -> u8 {
        self.info >> 4
    }
    pub fn typ(&self) -> u8 {
        self.info & 15
    }
    pub fn vis(&self) -> u8 {
        self.other & 3
    }
    pub fn defined_in(&self) -> Option<usize> {
        if self.raw_shndx == 0 || (self.raw_shndx >= 0xff00 && self.raw_shndx != 0xffff) {
            None
        } else {
            Some(self.shndx as usize)
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rel {
    pub off: u64,
    pub sym: u32,
    pub typ: u32,
    pub addend: i64,
}
#[derive(Clone, Debug)]
pub struct Elf<'a> {
    pub data: &'a [u8],
    pub big: bool,
    pub le: bool,
    pub etype: u16,
    pub machine: u16,
    pub shstrndx: usize,
    pub shoff: u64,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub symtab: usize,
    /// (section the relocations apply to, relocations)
    pub rels: Vec<(usize, Vec<Rel>)>,
    pub shndx_table: Option<Vec<u32>>,
    index: Index,
}

/// Symbols by name, built when first asked for.
pub type Index = std::cell::OnceCell<std::collections::HashMap<Vec<u8>, Vec<usize>>>;
pub fn index<'b>(x: &'b Index, names: impl Iterator<Item = &'b Vec<u8>>, n: &[u8]) -> impl Iterator<Item = usize> + 'b {
    let m = x.get_or_init(|| {
        let mut m: std::collections::HashMap<Vec<u8>, Vec<usize>> = Default::default();
        for (i, n) in names.enumerate() {
            m.entry(n.clone()).or_default().push(i);
        }
        m
    });
    m.get(n).map(|v| &v[..]).unwrap_or(&[]).iter().copied()
}

pub struct Rd<'a> {
    pub d: &'a [u8],
    pub le: bool,
}
impl<'a> Rd<'a> {
    pub fn at(&self, o: u64, n: u64) -> Result<&'a [u8], String> {
        let e = o.checked_add(n).ok_or("offset overflow")?;
        if e > self.d.len() as u64 {
            return Err(format!(
                "range {o:#x}+{n:#x} outside the file of {:#x} bytes",
                self.d.len()
            ));
        }
        Ok(&self.d[o as usize..e as usize])
    }
    pub fn u(&self, o: u64, n: u64) -> Result<u64, String> {
        let b = self.at(o, n)?;
        let mut v = 0u64;
        for i in 0..n as usize {
            let x = if self.le { b[n as usize - 1 - i] } else { b[i] };
            v = v << 8 | x as u64;
        }
        Ok(v)
    }
    pub fn u8(&self, o: u64) -> Result<u8, String> {
        Ok(self.at(o, 1)?[0])
    }
    pub fn u16(&self, o: u64) -> Result<u16, String> {
        Ok(self.u(o, 2)? as u16)
    }
    pub fn u32(&self, o: u64) -> Result<u32, String> {
        Ok(self.u(o, 4)? as u32)
    }
    pub fn u64(&self, o: u64) -> Result<u64, String> {
        self.u(o, 8)
    }
    pub fn cstr(&self, start: u64, len: u64, off: u64) -> Result<Vec<u8>, String> {
        let t = self.at(start, len)?;
        if off >= len {
            return Err(format!("name offset {off} outside the string table of {len} bytes"));
        }
        let s = &t[off as usize..];
        match s.iter().position(|b| *b == 0) {
            Some(n) => Ok(s[..n].to_vec()),
            None => Err(format!("name at {off} is not NUL-terminated")),
        }
    }
}

pub const SHT_PROGBITS: u32 = 1;
pub const SHT_SYMTAB: u32 = 2;
pub const SHT_STRTAB: u32 = 3;
pub const SHT_RELA: u32 = 4;
pub const SHT_NOBITS: u32 = 8;
pub const SHT_REL: u32 = 9;
pub const SHT_SYMTAB_SHNDX: u32 = 18;
pub const SHF_WRITE: u64 = 1;
pub const SHF_ALLOC: u64 = 2;
pub const SHF_EXEC: u64 = 4;
pub const SHF_MERGE: u64 = 0x10;
pub const SHF_STRINGS: u64 = 0x20;

pub fn parse(d: &[u8]) -> Result<Elf<'_>, String> {
    if d.len() < 52 || &d[..4] != b"\x7fELF" {
        return Err("no ELF magic".into());
    }
    let big = match d[4] {
        1 => false,
        2 => true,
        c => return Err(format!("bad class {c}")),
    };
    let le = match d[5] {
        1 => true,
        2 => false,
        c => return Err(format!("bad data encoding {c}")),
    };
    let r = Rd { d, le };
    let p = if big { 8 } else { 4 };
    let shoff = r.u(if big { 40 } else { 32 }, p)?;
    let t = if big { 58 } else { 46 };
    let shentsize = r.u16(t)? as u64;
    let want = if big { 64 } else { 40 };
    if shentsize != want {
        return Err(format!("section header size {shentsize}"));
    }
    let mut shnum = r.u16(t + 2)? as u64;
    let mut shstrndx = r.u16(t + 4)? as u64;
    if shoff == 0 {
        return Err("no section headers".into());
    }
    let rdsec = |i: u64| -> Result<Sec, String> {
        let b = shoff.checked_add(i * want).ok_or("overflow")?;
        let mut s = Sec {
            name_off: r.u32(b)?,
            typ: r.u32(b + 4)?,
            ..Sec::default()
        };
        if big {
            s.flags = r.u64(b + 8)?;
            s.addr = r.u64(b + 16)?;
            s.off = r.u64(b + 24)?;
            s.size = r.u64(b + 32)?;
            s.link = r.u32(b + 40)?;
            s.info = r.u32(b + 44)?;
            s.align = r.u64(b + 48)?;
            s.entsize = r.u64(b + 56)?;
        } else {
            s.flags = r.u32(b + 8)? as u64;
            s.addr = r.u32(b + 12)? as u64;
            s.off = r.u32(b + 16)? as u64;
            s.size = r.u32(b + 20)? as u64;
            s.link = r.u32(b + 24)?;
            s.info = r.u32(b + 28)?;
            s.align = r.u32(b + 32)? as u64;
            s.entsize = r.u32(b + 36)? as u64;
        }
        Ok(s)
    };
    let s0 = rdsec(0)?;
    if shnum == 0 {
        shnum = s0.size;
        if shnum < 0xff00 {
            return Err(format!("extended section count {shnum} is below 0xff00"));
        }
    }
    if shstrndx == 0xffff {
        shstrndx = s0.link as u64;
    }
    if shnum > d.len() as u64 / want {
        return Err(format!("{shnum} section headers do not fit the file"));
    }
    r.at(shoff, shnum * want)?;
    let mut secs = vec![];
    for i in 0..shnum {
        secs.push(rdsec(i)?);
    }
    let strs = secs.get(shstrndx as usize).ok_or("e_shstrndx out of range")?.clone();
    if strs.typ != SHT_STRTAB {
        return Err("e_shstrndx is not a string table".into());
    }
    for (i, s) in secs.iter_mut().enumerate() {
        s.name = r
            .cstr(strs.off, strs.size, s.name_off as u64)
            .map_err(|e| format!("section {i}: {e}"))?;
    }
    let st: Vec<usize> = (0..secs.len()).filter(|i| secs[*i].typ == SHT_SYMTAB).collect();
    if st.len() != 1 {
        return Err(format!("{} symbol tables", st.len()));
    }
    let symtab = st[0];
    let mut shndx_table = None;
    for s in secs.iter().filter(|s| s.typ == SHT_SYMTAB_SHNDX) {
        if s.link as usize != symtab {
            return Err("SYMTAB_SHNDX not linked to the symbol table".into());
        }
        if shndx_table.is_some() {
            return Err("two SYMTAB_SHNDX sections".into());
        }
        let mut v = vec![];
        r.at(s.off, s.size)?;
        for i in 0..s.size / 4 {
            v.push(r.u32(s.off + i * 4)?);
        }
        shndx_table = Some(v);
    }
    let ss = secs[symtab].clone();
    let str2 = secs
        .get(ss.link as usize)
        .ok_or("symbol table's string table out of range")?
        .clone();
    if str2.typ != SHT_STRTAB {
        return Err("symbol table is not linked to a string table".into());
    }
    let es: u64 = if big { 24 } else { 16 };
    if ss.entsize != es || ss.size % es != 0 {
        return Err(format!("symbol table size {:#x} entsize {}", ss.size, ss.entsize));
    }
    r.at(ss.off, ss.size)?;
    let mut syms = vec![];
    for i in 0..ss.size / es {
        let b = ss.off + i * es;
        let name_off = r.u32(b)?;
        let (info, other, raw, value, size);
        if big {
            info = r.u8(b + 4)?;
            other = r.u8(b + 5)?;
            raw = r.u16(b + 6)?;
            value = r.u64(b + 8)?;
            size = r.u64(b + 16)?;
        } else {
            value = r.u32(b + 4)? as u64;
            size = r.u32(b + 8)? as u64;
            info = r.u8(b + 12)?;
            other = r.u8(b + 13)?;
            raw = r.u16(b + 14)?;
        }
        let mut shndx = raw as u32;
        if raw == 0xffff {
            shndx = *shndx_table
                .as_ref()
                .and_then(|t| t.get(i as usize))
                .ok_or(format!("symbol {i} uses SHN_XINDEX without an entry"))?;
        }
        let name = r
            .cstr(str2.off, str2.size, name_off as u64)
            .map_err(|e| format!("symbol {i}: {e}"))?;
        syms.push(Sym {
            name,
            name_off,
            info,
            other,
            shndx,
            raw_shndx: raw,
            value,
            size,
        });
    }
    let mut rels = vec![];
    for (i, s) in secs.iter().enumerate() {
        if s.typ == SHT_REL {
            return Err("REL section".into());
        }
        if s.typ != SHT_RELA {
            continue;
        }
        let es: u64 = if big { 24 } else { 12 };
        let mips64el = big && le && r.u16(18)? == 8;
        if s.entsize != es || s.size % es != 0 {
            return Err(format!(
                "relocation section {i} size {:#x} entsize {}",
                s.size, s.entsize
            ));
        }
        r.at(s.off, s.size)?;
        let mut v = vec![];
        for k in 0..s.size / es {
            let b = s.off + k * es;
            if big {
                let info = r.u64(b + 8)?;
                // little-endian MIPS64: the 32-bit symbol number first, then the types, last to first
                let (sym, typ) = if mips64el {
                    (info as u32, ((info >> 32) as u32).swap_bytes())
                } else {
                    ((info >> 32) as u32, info as u32)
                };
                v.push(Rel {
                    off: r.u64(b)?,
                    sym,
                    typ,
                    addend: r.u64(b + 16)? as i64,
                });
            } else {
                let info = r.u32(b + 4)?;
                v.push(Rel {
                    off: r.u32(b)? as u64,
                    sym: info >> 8,
                    typ: info & 255,
                    addend: r.u32(b + 8)? as i32 as i64,
                });
            }
        }
        rels.push((s.info as usize, v));
    }
    Ok(Elf {
        data: d,
        big,
        le,
        etype: r.u16(16)?,
        machine: r.u16(18)?,
        shstrndx: shstrndx as usize,
        shoff,
        secs,
        syms,
        symtab,
        rels,
        shndx_table,
        index: Default::default(),
    })
}

impl<'a> Elf<'a> {
    pub fn bytes(&self, s: &Sec) -> Result<&'a [u8], String> {
        if s.typ == SHT_NOBITS {
            return Ok(&[]);
        }
        Rd {
            d: self.data,
            le: self.le,
        }
        .at(s.off, s.size)
    }
    pub fn by_name<'b>(&'b self, n: &'b str) -> impl Iterator<Item = (usize, &'b Sym)> + 'b {
        index(&self.index, self.syms.iter().map(|s| &s.name), n.as_bytes()).map(move |i| (i, &self.syms[i]))
    }
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

/// Everything the gABI asks of a relocatable object, for the target `t`.
pub fn validate(e: &Elf, t: &Tgt) -> Result<(), String> {
    let d = e.data;
    let r = Rd { d, le: e.le };
    ensure!(e.big == t.big, "class does not suit the target");
    ensure!(e.le == t.le, "data encoding does not suit the target");
    ensure!(d[6] == 1, "EI_VERSION {}", d[6]);
    ensure!(
        d[7] == 0 && d[8..16].iter().all(|b| *b == 0),
        "identification padding not zero"
    );
    ensure!(e.etype == 1, "e_type {} is not ET_REL", e.etype);
    ensure!(r.u32(20)? == 1, "e_version");
    let p = if e.big { 8 } else { 4 };
    ensure!(r.u(24, p)? == 0, "entry point in a relocatable object");
    ensure!(r.u(24 + p, p)? == 0, "program header offset in a relocatable object");
    ensure!(r.u32(24 + 3 * p)? == 0, "e_flags {:#x}", r.u32(24 + 3 * p)?);
    let q = 28 + 3 * p;
    let ehsize = if e.big { 64 } else { 52 };
    ensure!(r.u16(q)? as u64 == ehsize, "e_ehsize {}", r.u16(q)?);
    ensure!(r.u16(q + 4)? == 0, "program headers in a relocatable object");
    ensure!(e.shoff % p == 0, "section headers misaligned");
    let shnum16 = r.u16(q + 8)?;
    if (e.secs.len() as u64) < 0xff00 {
        ensure!(shnum16 as usize == e.secs.len(), "extended count used without need");
        ensure!(e.secs[0].size == 0, "first section header not null");
        ensure!(r.u16(q + 10)? < 0xff00, "reserved e_shstrndx");
    } else {
        ensure!(shnum16 == 0, "e_shnum {shnum16} with {} sections", e.secs.len());
    }
    let z = &e.secs[0];
    ensure!(
        z.typ == 0
            && z.name_off == 0
            && z.flags == 0
            && z.addr == 0
            && z.off == 0
            && z.align == 0
            && z.entsize == 0
            && z.info == 0
            && (z.link == 0 || e.shstrndx >= 0xff00),
        "first section header is not null: {z:?}"
    );
    // ranges
    let mut ranges: Vec<(u64, u64, String)> = vec![(0, ehsize, "ELF header".into())];
    ranges.push((
        e.shoff,
        e.shoff + e.secs.len() as u64 * if e.big { 64 } else { 40 },
        "section headers".into(),
    ));
    let mut stack = 0;
    let mut rela_for = std::collections::BTreeSet::new();
    for (i, s) in e.secs.iter().enumerate().skip(1) {
        let nm = String::from_utf8_lossy(&s.name).to_string();
        ensure!(s.addr == 0, "section {i} {nm} has an address");
        ensure!(
            s.align == 0 || s.align.is_power_of_two(),
            "section {i} {nm} alignment {}",
            s.align
        );
        if s.typ == SHT_NOBITS {
            ensure!(s.off <= d.len() as u64, "NOBITS section {nm} offset outside the file");
        } else {
            ensure!(
                s.off.checked_add(s.size).map_or(false, |x| x <= d.len() as u64),
                "section {i} {nm} outside the file"
            );
            if s.size > 0 {
                ranges.push((s.off, s.off + s.size, format!("section {i} {nm}")));
            }
        }
        match s.typ {
            SHT_PROGBITS | SHT_NOBITS => {
                ensure!(s.link == 0 && s.info == 0, "section {i} {nm} has link/info");
                ensure!(
                    s.flags & !(SHF_WRITE | SHF_ALLOC | SHF_EXEC | SHF_MERGE | SHF_STRINGS) == 0,
                    "section {i} {nm} flags {:#x}",
                    s.flags
                );
                if s.name == b".note.GNU-stack" {
                    stack += 1;
                    ensure!(s.typ == SHT_PROGBITS, "stack note type");
                    ensure!(s.flags & SHF_EXEC == 0, "the stack note asks for an executable stack");
                }
            }
            SHT_SYMTAB => {
                ensure!(
                    s.align == 0 || s.off % s.align == 0 || s.off % p == 0,
                    "symbol table misaligned"
                );
                ensure!(s.off % p == 0, "symbol table misaligned");
                ensure!(s.flags == 0, "symbol table flags");
                ensure!(s.name == b".symtab", "the symbol table is named {nm:?}");
            }
            SHT_STRTAB => {
                let b = e.bytes(s)?;
                ensure!(
                    !b.is_empty() && b[0] == 0 && b[b.len() - 1] == 0,
                    "string table {nm} not NUL-bounded"
                );
                ensure!(s.link == 0 && s.info == 0, "string table link/info");
                ensure!(
                    s.name == b".strtab" || s.name == b".shstrtab",
                    "a string table is named {nm:?}"
                );
            }
            SHT_RELA => {
                ensure!(s.off % p == 0, "relocations of {nm} misaligned");
                ensure!(s.link as usize == e.symtab, "{nm} is not linked to the symbol table");
                let ti = s.info as usize;
                ensure!(ti > 0 && ti < e.secs.len(), "{nm} applies to section {ti}");
                let tt = e.secs[ti].typ;
                ensure!(
                    tt == SHT_PROGBITS || tt == SHT_NOBITS,
                    "{nm} applies to a section of type {tt}"
                );
                ensure!(s.flags & !0x40 == 0, "{nm} flags {:#x}", s.flags);
                rela_for.insert(ti);
                let mut want = b".rela".to_vec();
                want.extend(&e.secs[ti].name);
                ensure!(s.name == want, "{nm} is not named after the section it applies to");
            }
            SHT_SYMTAB_SHNDX => {
                ensure!(s.off % 4 == 0, "extended indices misaligned");
                ensure!(s.entsize == 4, "extended indices entsize");
                ensure!(s.name == b".symtab_shndx", "the extended indices are named {nm:?}");
            }
            t => return Err(format!("section {i} {nm} has type {t}")),
        }
    }
    ensure!(stack >= 1, "no non-executable stack note");
    ranges.sort();
    for w in ranges.windows(2) {
        ensure!(w[0].1 <= w[1].0, "{} overlaps {}", w[0].2, w[1].2);
    }
    // symbols
    ensure!(!e.syms.is_empty(), "no null symbol");
    let n = &e.syms[0];
    ensure!(
        n.name_off == 0 && n.info == 0 && n.other == 0 && n.raw_shndx == 0 && n.value == 0 && n.size == 0,
        "first symbol is not null"
    );
    let info = e.secs[e.symtab].info as usize;
    let first_nonlocal = e.syms.iter().position(|s| s.bind() != 0).unwrap_or(e.syms.len());
    ensure!(
        e.syms[first_nonlocal..].iter().all(|s| s.bind() != 0),
        "a local symbol follows a non-local one (symbol {})",
        first_nonlocal
    );
    ensure!(
        info == first_nonlocal,
        "sh_info {info} but the first non-local symbol is {first_nonlocal}"
    );
    for (i, s) in e.syms.iter().enumerate() {
        let nm = String::from_utf8_lossy(&s.name);
        ensure!(s.bind() <= 2, "symbol {i} {nm} binding {}", s.bind());
        ensure!(matches!(s.typ(), 0..=4), "symbol {i} {nm} type {}", s.typ());
        ensure!(s.other & !3 == 0, "symbol {i} {nm} st_other {:#x}", s.other);
        if s.typ() == 4 {
            ensure!(
                s.raw_shndx == 0xfff1 && s.bind() == 0,
                "file symbol {nm} is not local and absolute"
            );
        }
        if s.typ() == 3 {
            ensure!(
                s.bind() == 0 && s.defined_in().is_some() && s.value == 0,
                "section symbol {i}"
            );
        }
        if let Some(x) = s.defined_in() {
            ensure!(x < e.secs.len(), "symbol {i} {nm} in section {x} of {}", e.secs.len());
            let sec = &e.secs[x];
            ensure!(
                matches!(sec.typ, SHT_PROGBITS | SHT_NOBITS),
                "symbol {i} {nm} in section of type {}",
                sec.typ
            );
            ensure!(
                s.value.checked_add(s.size).map_or(false, |v| v <= sec.size),
                "symbol {i} {nm} reaches outside its section"
            );
        } else if s.raw_shndx != 0 {
            ensure!(
                s.raw_shndx == 0xfff1,
                "symbol {i} {nm} has reserved index {:#x}",
                s.raw_shndx
            );
        }
        if let Some(t) = &e.shndx_table {
            ensure!(
                t.len() == e.syms.len(),
                "{} extended indices for {} symbols",
                t.len(),
                e.syms.len()
            );
            ensure!(
                s.raw_shndx == 0xffff || t[i] == 0,
                "symbol {i} {nm} has an extended index {} it does not use",
                t[i]
            );
            if s.raw_shndx == 0xffff {
                ensure!(s.shndx >= 0xff00, "extended index without need");
            }
        }
    }
    for (ti, v) in &e.rels {
        for r in v {
            ensure!(r.sym != 0, "relocation against the null symbol");
            ensure!(
                (r.sym as usize) < e.syms.len(),
                "relocation against symbol {} of {}",
                r.sym,
                e.syms.len()
            );
            ensure!(e.syms[r.sym as usize].typ() != 4, "relocation against the file symbol");
            let _ = ti;
        }
    }
    Ok(())
}
