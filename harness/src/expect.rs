//! What an object must say about a program (independent of the code's tables), and the canonical
//! description of an object used by the metamorphic properties.
use crate::elf::{self, ensure, Elf};
use crate::gen::{elf_rel, mach_rel, mach_sectname, MRel};
use crate::mach::Mach;
use crate::model::*;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Loc {
    pub sec: usize,
    /// offset in the section
    pub off: u64,
    pub len: u64,
    pub sym: Option<usize>,
}
pub type Locs<'p> = BTreeMap<&'p str, Loc>;

// ---------------------------------------------------------------- ELF

pub fn elf_locate<'p>(p: &'p Program, e: &Elf) -> Result<Locs<'p>, String> {
    let mut byname: BTreeMap<&[u8], Vec<usize>> = BTreeMap::new();
    for (i, s) in e.syms.iter().enumerate() {
        if s.typ() != 4 && !s.name.is_empty() {
            byname.entry(&s.name).or_default().push(i);
        }
    }
    let mut locs = Locs::new();
    let mut taken = BTreeSet::new();
    for d in p.defs.iter().filter(|d| !d.d.is_section()) {
        let v = byname.get(d.name.as_bytes()).cloned().unwrap_or_default();
        ensure!(v.len() == 1, "{:?} has {} symbols", d.name, v.len());
        let s = &e.syms[v[0]];
        let sec = s
            .defined_in()
            .ok_or(format!("{:?} is not defined in a section", d.name))?;
        ensure!(
            sec < e.secs.len(),
            "{:?} is in section {sec} of {}",
            d.name,
            e.secs.len()
        );
        taken.insert(sec);
        locs.insert(
            &d.name,
            Loc {
                sec,
                off: s.value,
                len: d.body.mem_len(),
                sym: Some(v[0]),
            },
        );
    }
    let mut secn: BTreeMap<&[u8], Vec<usize>> = BTreeMap::new();
    for (i, s) in e.secs.iter().enumerate() {
        if matches!(s.typ, elf::SHT_PROGBITS | elf::SHT_NOBITS) && !taken.contains(&i) && s.name != b".note.GNU-stack" {
            secn.entry(&s.name).or_default().push(i);
        }
    }
    for d in p.defs.iter().filter(|d| d.d.is_section()) {
        let v = secn.get(d.name.as_bytes()).cloned().unwrap_or_default();
        ensure!(v.len() == 1, "{} sections named {:?}", v.len(), d.name);
        locs.insert(
            &d.name,
            Loc {
                sec: v[0],
                off: 0,
                len: d.body.mem_len(),
                sym: None,
            },
        );
    }
    Ok(locs)
}

pub fn elf_content(p: &Program, e: &Elf, l: &Locs) -> Result<(), String> {
    let mut used: BTreeMap<usize, Vec<(u64, u64, &str)>> = BTreeMap::new();
    for d in &p.defs {
        let loc = &l[d.name.as_str()];
        let s = &e.secs[loc.sec];
        let len = d.body.mem_len();
        used.entry(loc.sec).or_default().push((loc.off, len, &d.name));
        ensure!(
            loc.off.checked_add(len).map_or(false, |x| x <= s.size),
            "{:?}: {len} bytes at {:#x} do not fit its section of {:#x} bytes",
            d.name,
            loc.off,
            s.size
        );
        match loc.sym {
            Some(i) => {
                ensure!(
                    e.syms[i].size == len,
                    "{:?}: symbol size {} for {len} bytes",
                    d.name,
                    e.syms[i].size
                )
            }
            None => ensure!(s.size == len, "section {:?}: size {} for {len} bytes", d.name, s.size),
        }
        if d.body.is_zero() {
            ensure!(
                s.typ == elf::SHT_NOBITS,
                "zero-initialised {:?} takes space in the file",
                d.name
            );
            ensure!(
                s.flags & elf::SHF_ALLOC != 0,
                "zero-initialised {:?} gets no memory",
                d.name
            );
        } else {
            ensure!(
                s.typ == elf::SHT_PROGBITS,
                "{:?} is in a section of type {}",
                d.name,
                s.typ
            );
            let b = e.bytes(s)?;
            let got = &b[loc.off as usize..(loc.off + len) as usize];
            let want = d.body.bytes();
            ensure!(got == &want[..], "{:?}: {}", d.name, diff(got, &want));
        }
    }
    for (s, v) in used.iter_mut() {
        v.sort();
        for w in v.windows(2) {
            ensure!(
                w[0].0 + w[0].1 <= w[1].0,
                "{:?} and {:?} share storage in section {s}",
                w[0].2,
                w[1].2
            );
        }
    }
    let mut files: Vec<(u64, u64, usize)> = vec![];
    for (i, s) in e.secs.iter().enumerate() {
        if matches!(s.typ, elf::SHT_PROGBITS | elf::SHT_NOBITS) && s.size > 0 && !used.contains_key(&i) {
            return Err(format!(
                "section {i} {:?} holds {} bytes nobody defined",
                String::from_utf8_lossy(&s.name),
                s.size
            ));
        }
        if s.typ == elf::SHT_PROGBITS && s.size > 0 {
            files.push((s.off, s.off + s.size, i));
        }
    }
    files.sort();
    for w in files.windows(2) {
        ensure!(
            w[0].1 <= w[1].0,
            "sections {} and {} share bytes of the file",
            w[0].2,
            w[1].2
        );
    }
    Ok(())
}
pub fn diff(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("{} bytes instead of {}", got.len(), want.len());
    }
    match (0..got.len()).find(|i| got[*i] != want[*i]) {
        Some(i) => format!(
            "byte {i} of {} is {:#04x}, defined as {:#04x}",
            got.len(),
            got[i],
            want[i]
        ),
        None => "same".into(),
    }
}

pub fn elf_symbols(p: &Program, art: &str, e: &Elf) -> Result<(), String> {
    let mut want: BTreeMap<&[u8], String> = BTreeMap::new();
    let mut seen: BTreeSet<&[u8]> = BTreeSet::new();
    for d in &p.defs {
        if !d.d.is_section() {
            want.insert(d.name.as_bytes(), "def".into());
        }
        for s in &d.syms {
            want.insert(s.0.as_bytes(), d.name.clone());
        }
    }
    for i in &p.imports {
        want.insert(i.0.as_bytes(), "import".into());
    }
    let locs = elf_locate(p, e)?;
    let mut files = 0;
    for (i, s) in e.syms.iter().enumerate() {
        let nm = String::from_utf8_lossy(&s.name).to_string();
        if s.typ() == 4 {
            files += 1;
            ensure!(
                s.name == art.as_bytes(),
                "file symbol named {nm:?}, the artifact is {art:?}"
            );
            ensure!(s.bind() == 0 && s.value == 0 && s.size == 0, "file symbol {s:?}");
            continue;
        }
        if s.name.is_empty() {
            ensure!(i == 0 || s.typ() == 3, "unnamed symbol {i} of type {}", s.typ());
            continue;
        }
        ensure!(want.contains_key(&s.name[..]), "unexpected symbol {nm:?}");
        ensure!(seen.insert(&s.name), "two symbols {nm:?}");
    }
    ensure!(files == 1, "{files} file symbols");
    for d in &p.defs {
        for (n, off) in &d.syms {
            let v: Vec<_> = e.by_name(n).filter(|x| x.1.typ() != 4).collect();
            ensure!(v.len() == 1, "custom symbol {n:?} appears {} times", v.len());
            let s = v[0].1;
            ensure!(
                s.defined_in() == Some(locs[d.name.as_str()].sec),
                "custom symbol {n:?} is not in section {:?}",
                d.name
            );
            ensure!(s.value == *off, "custom symbol {n:?} at {:#x}, given {off:#x}", s.value);
        }
        let (scope, vis, ty) = match d.d {
            D::Fn { scope, vis, .. } => (scope, vis, 2),
            D::Data { scope, vis, .. } => (scope, vis, 1),
            _ => continue,
        };
        let s = &e.syms[locs[d.name.as_str()].sym.unwrap()];
        let b = match scope {
            Scope::Local => 0,
            Scope::Global => 1,
            Scope::Weak => 2,
        };
        let v = match vis {
            Vis::Default => 0,
            Vis::Hidden => 2,
            Vis::Protected => 3,
        };
        ensure!(s.typ() == ty, "{:?} has symbol type {}, wanted {ty}", d.name, s.typ());
        ensure!(
            s.bind() == b,
            "{:?} has binding {}, declared {scope:?}",
            d.name,
            s.bind()
        );
        ensure!(
            s.vis() == v,
            "{:?} has visibility {}, declared {vis:?}",
            d.name,
            s.vis()
        );
        ensure!(
            s.size == d.body.mem_len(),
            "{:?} has size {}, defined with {}",
            d.name,
            s.size,
            d.body.mem_len()
        );
    }
    for (n, _) in &p.imports {
        let v: Vec<_> = e.by_name(n).filter(|x| x.1.typ() != 4).collect();
        ensure!(v.len() == 1, "import {n:?} appears {} times", v.len());
        let s = v[0].1;
        ensure!(s.raw_shndx == 0, "import {n:?} is defined in section {}", s.shndx);
        ensure!(s.bind() == 1, "import {n:?} has binding {}", s.bind());
        ensure!(s.vis() == 0 && s.value == 0 && s.size == 0, "import {n:?}: {s:?}");
    }
    Ok(())
}

pub fn elf_attrs(p: &Program, e: &Elf, l: &Locs) -> Result<(), String> {
    use elf::*;
    for d in &p.defs {
        let s = &e.secs[l[d.name.as_str()].sec];
        let (a, w, x, ms) = (
            s.flags & SHF_ALLOC != 0,
            s.flags & SHF_WRITE != 0,
            s.flags & SHF_EXEC != 0,
            s.flags & (SHF_MERGE | SHF_STRINGS),
        );
        let both = SHF_MERGE | SHF_STRINGS;
        match d.d {
            D::Fn { .. } => {
                ensure!(
                    a && x && !w,
                    "function {:?} is in a section with flags {:#x}",
                    d.name,
                    s.flags
                );
                ensure!(ms == 0, "function {:?} is marked mergeable", d.name);
            }
            D::Data { w: dw, s: st, .. } => {
                ensure!(a && !x, "data {:?} is in a section with flags {:#x}", d.name, s.flags);
                if d.body.is_zero() {
                    ensure!(w, "zero-initialised {:?} is not writable", d.name);
                    ensure!(ms == 0, "zero-initialised {:?} is marked mergeable", d.name);
                } else {
                    ensure!(
                        w == dw,
                        "data {:?} declared writable={dw}, section flags {:#x}",
                        d.name,
                        s.flags
                    );
                    if st {
                        ensure!(ms == both, "string {:?} is not marked as mergeable strings", d.name);
                    } else {
                        ensure!(ms == 0, "data {:?} is marked mergeable", d.name);
                    }
                }
            }
            D::Sec { kind, s: st, .. } => {
                match kind {
                    SKind::Debug => {
                        ensure!(!a && !w && !x, "debug section {:?} has flags {:#x}", d.name, s.flags)
                    }
                    SKind::Data => ensure!(a && w && !x, "data section {:?} has flags {:#x}", d.name, s.flags),
                    SKind::Text => ensure!(a && x && !w, "text section {:?} has flags {:#x}", d.name, s.flags),
                }
                let dwarf_str = d.name == ".debug_str" || d.name == ".debug_line_str";
                if st || dwarf_str {
                    ensure!(
                        ms == both,
                        "string section {:?} is not marked as mergeable strings",
                        d.name
                    );
                } else {
                    ensure!(ms == 0, "section {:?} is marked mergeable", d.name);
                }
            }
            _ => {}
        }
        if let Some(al) = d.d.align() {
            ensure!(
                s.align.max(1) == al,
                "{:?} declared aligned to {al}, its section to {}",
                d.name,
                s.align
            );
        }
    }
    Ok(())
}

/// (source, offset in source, type, addend, target) for every relocation, in file order.
pub fn elf_relocs<'p>(
    p: &'p Program,
    e: &Elf,
    l: &Locs<'p>,
) -> Result<BTreeMap<&'p str, Vec<(u64, u32, i64, String)>>, String> {
    let mut owner: BTreeMap<usize, Vec<(&'p str, Loc)>> = BTreeMap::new();
    for d in &p.defs {
        let x = l[d.name.as_str()];
        owner.entry(x.sec).or_default().push((&d.name, x));
    }
    let find = |sec: usize, off: u64| -> Option<(&'p str, Loc)> {
        let v = owner.get(&sec)?;
        if v.len() == 1 {
            return Some(v[0]);
        }
        v.iter()
            .find(|(_, x)| off >= x.off && off < x.off + x.len.max(1))
            .copied()
    };
    let mut out: BTreeMap<&str, Vec<_>> = BTreeMap::new();
    for (sec, v) in &e.rels {
        for r in v {
            let (from, x) = find(*sec, r.off).ok_or(format!(
                "relocation at {:#x} of section {sec}, which nobody defined",
                r.off
            ))?;
            ensure!(r.off >= x.off, "relocation before its definition");
            let s = e.syms.get(r.sym as usize).ok_or(format!(
                "relocation in {from:?} against symbol {} of {}",
                r.sym,
                e.syms.len()
            ))?;
            let (to, addend) = if s.typ() == 3 {
                let ts = s.defined_in().ok_or("undefined section symbol")?;
                // the definition a section symbol stands for is the one at the start of the section
                let v = owner.get(&ts).ok_or(format!(
                    "relocation in {from:?} at {:#x} against section {ts}, which holds no definition",
                    r.off
                ))?;
                if v.len() == 1 && v[0].1.off == 0 {
                    (v[0].0.to_string(), r.addend)
                } else {
                    let (n, x) = find(ts, r.addend as u64).ok_or("section relocation addend outside")?;
                    (n.to_string(), r.addend - x.off as i64)
                }
            } else {
                (String::from_utf8_lossy(&s.name).to_string(), r.addend)
            };
            out.entry(from).or_default().push((r.off - x.off, r.typ, addend, to));
        }
    }
    Ok(out)
}

pub fn elf_links(p: &Program, e: &Elf, l: &Locs, big: bool) -> Result<(), String> {
    let got = elf_relocs(p, e, l)?;
    let mut want: BTreeMap<&str, Vec<(u64, u32, i64, String)>> = BTreeMap::new();
    for k in &p.links {
        let (fd, td) = (p.decl(&k.from).unwrap(), p.decl(&k.to).unwrap());
        let (t, a) = elf_rel(fd, td, k.rel, big).ok_or_else(|| format!("harness: inexpressible link {k:?}"))?;
        want.entry(&k.from).or_default().push((k.at, t, a, k.to.clone()));
    }
    cmp_links(&got, &want)
}
fn cmp_links<T: PartialEq + std::fmt::Debug>(
    got: &BTreeMap<&str, Vec<T>>,
    want: &BTreeMap<&str, Vec<T>>,
) -> Result<(), String> {
    let names: BTreeSet<&&str> = got.keys().chain(want.keys()).collect();
    for n in names {
        let e = vec![];
        let (g, w) = (got.get(*n).unwrap_or(&e), want.get(*n).unwrap_or(&e));
        if g != w {
            let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap();
            return Err(format!(
                "relocations of {n:?}: {} for {} links; number {i} is {:?}, the link asks for {:?}",
                g.len(),
                w.len(),
                g.get(i),
                w.get(i)
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- Mach-O

pub fn seg_of(k: SKind) -> &'static [u8] {
    match k {
        SKind::Data => b"__DATA",
        SKind::Debug => b"__DWARF",
        SKind::Text => b"__TEXT",
    }
}

pub fn mach_locate<'p>(p: &'p Program, m: &Mach) -> Result<Locs<'p>, String> {
    let mut byname: BTreeMap<&[u8], Vec<usize>> = BTreeMap::new();
    for (i, s) in m.syms.iter().enumerate() {
        byname.entry(&s.name).or_default().push(i);
    }
    let mut locs = Locs::new();
    for d in &p.defs {
        if d.d.is_section() {
            let n = mach_sectname(&d.name);
            let v: Vec<usize> = (0..m.secs.len()).filter(|i| m.secs[*i].sect == n.as_bytes()).collect();
            let v = if v.len() > 1 {
                // named like a default section: that one holds the definitions with symbols, or nothing
                let homes: BTreeSet<usize> = p
                    .defs
                    .iter()
                    .filter(|o| !o.d.is_section())
                    .filter_map(|o| {
                        let i = *byname.get(format!("_{}", o.name).as_bytes())?.first()?;
                        (m.syms[i].sect as usize).checked_sub(1)
                    })
                    .collect();
                let want = d.body.bytes();
                let mut v: Vec<usize> = v
                    .into_iter()
                    .filter(|i| {
                        let s = &m.secs[*i];
                        !homes.contains(i) && !s.zerofill() && m.bytes(s).map_or(false, |b| b == &want[..])
                    })
                    .collect();
                ensure!(
                    !v.is_empty(),
                    "no section named {n:?} holds what {:?} was given",
                    d.name
                );
                v.drain(..v.len() - 1);
                v
            } else {
                v
            };
            ensure!(v.len() == 1, "{} sections named {n:?}", v.len());
            locs.insert(
                &d.name,
                Loc {
                    sec: v[0],
                    off: 0,
                    len: d.body.mem_len(),
                    sym: None,
                },
            );
            continue;
        }
        let v = byname
            .get(format!("_{}", d.name).as_bytes())
            .cloned()
            .unwrap_or_default();
        ensure!(v.len() == 1, "{:?} has {} symbols", d.name, v.len());
        let s = &m.syms[v[0]];
        ensure!(s.typ & 0x0e == 0x0e, "{:?} is not defined in a section", d.name);
        let k = (s.sect as usize).wrapping_sub(1);
        ensure!(
            k < m.secs.len(),
            "{:?} is in section {} of {}",
            d.name,
            s.sect,
            m.secs.len()
        );
        let off = s
            .value
            .checked_sub(m.secs[k].addr)
            .ok_or(format!("{:?} lies before its section", d.name))?;
        locs.insert(
            &d.name,
            Loc {
                sec: k,
                off,
                len: d.body.mem_len(),
                sym: Some(v[0]),
            },
        );
    }
    Ok(locs)
}

pub fn mach_content(p: &Program, m: &Mach, l: &Locs) -> Result<(), String> {
    let mut mem: Vec<(u64, u64, &str)> = vec![];
    let mut custom = BTreeSet::new();
    for d in &p.defs {
        let loc = &l[d.name.as_str()];
        let s = &m.secs[loc.sec];
        let len = d.body.mem_len();
        let addr = s.addr + loc.off;
        ensure!(
            loc.off.checked_add(len).map_or(false, |x| x <= s.size),
            "{:?}: {len} bytes at {:#x} do not fit section {} of {:#x} bytes",
            d.name,
            loc.off,
            String::from_utf8_lossy(&s.sect),
            s.size
        );
        if len > 0 {
            mem.push((addr, addr + len, &d.name));
        }
        if d.d.is_section() {
            custom.insert(loc.sec);
            ensure!(s.size == len, "section {:?}: size {} for {len} bytes", d.name, s.size);
        }
        if d.body.is_zero() {
            ensure!(
                s.zerofill(),
                "zero-initialised {:?} is not in a zero-fill section",
                d.name
            );
        } else {
            ensure!(!s.zerofill(), "{:?} is in a zero-fill section", d.name);
            let b = m.bytes(s)?;
            let got = &b[loc.off as usize..(loc.off + len) as usize];
            let want = d.body.bytes();
            ensure!(got == &want[..], "{:?}: {}", d.name, diff(got, &want));
        }
        if let Some(al) = d.d.align() {
            ensure!(addr % al == 0, "{:?} declared aligned to {al} is at {addr:#x}", d.name);
            ensure!(
                s.align < 64 && 1u64 << s.align >= al,
                "{:?} declared aligned to {al} is in section {} aligned to 2^{}",
                d.name,
                String::from_utf8_lossy(&s.sect),
                s.align
            );
        }
        // the section's own placement must keep the symbol where the alignment puts it
        ensure!(
            s.size == 0 || s.align >= 63 || s.addr % (1u64 << s.align) == 0,
            "section of {:?} at {:#x} is misaligned for 2^{}",
            d.name,
            s.addr,
            s.align
        );
    }
    mem.sort();
    for w in mem.windows(2) {
        ensure!(w[0].1 <= w[1].0, "{:?} and {:?} overlap in memory", w[0].2, w[1].2);
    }
    let mut files: Vec<(u64, u64, usize)> = vec![];
    for (i, s) in m.secs.iter().enumerate() {
        if !s.zerofill() && s.size > 0 {
            files.push((s.off, s.off + s.size, i));
        }
        let end = s.addr.checked_add(s.size).ok_or("overflow")?;
        ensure!(
            end <= m.vmaddr + m.vmsize,
            "section {i} ends at {end:#x} outside the segment's memory"
        );
    }
    files.sort();
    for w in files.windows(2) {
        ensure!(
            w[0].1 <= w[1].0,
            "sections {} and {} share bytes of the file",
            w[0].2,
            w[1].2
        );
    }
    Ok(())
}

pub fn mach_symbols(p: &Program, m: &Mach) -> Result<(), String> {
    let mut want: BTreeSet<String> = BTreeSet::new();
    for d in &p.defs {
        if !d.d.is_section() {
            want.insert(format!("_{}", d.name));
        }
        for s in &d.syms {
            want.insert(format!("_{}", s.0));
        }
    }
    for i in &p.imports {
        want.insert(format!("_{}", i.0));
    }
    let mut seen = BTreeSet::new();
    for s in &m.syms {
        let nm = String::from_utf8_lossy(&s.name).to_string();
        ensure!(want.contains(&nm), "unexpected symbol {nm:?}");
        ensure!(seen.insert(nm.clone()), "two symbols {nm:?}");
    }
    for w in &want {
        ensure!(seen.contains(w), "no symbol {w:?}");
    }
    // descriptions: nothing but the reference type of the kind of symbol, "weak definition", and
    // "not to be stripped"
    for s in &m.syms {
        let nm = String::from_utf8_lossy(&s.name);
        ensure!(
            s.desc & !(0xa0 | 7) == 0
                && if s.undefined() {
                    s.desc <= 1
                } else {
                    matches!(s.desc & 7, 0 | 2 | 3)
                },
            "{nm:?} of type {:#x} has description {:#x}",
            s.typ,
            s.desc
        );
    }
    let l = mach_locate(p, m)?;
    for d in &p.defs {
        for (n, off) in &d.syms {
            let s = m.by_name(n).next().unwrap().1;
            ensure!(
                s.desc & 0x80 == 0 && !s.pext(),
                "custom symbol {n:?} has type {:#x} and description {:#x}",
                s.typ,
                s.desc
            );
            let loc = &l[d.name.as_str()];
            ensure!(
                s.typ & 0x0e == 0x0e && s.sect as usize == loc.sec + 1,
                "custom symbol {n:?} is not in section {:?}",
                d.name
            );
            ensure!(
                s.value == m.secs[loc.sec].addr + off,
                "custom symbol {n:?} at {:#x}, given offset {off:#x} of a section at {:#x}",
                s.value,
                m.secs[loc.sec].addr
            );
        }
        let (scope, vis) = match d.d {
            D::Fn { scope, vis, .. } | D::Data { scope, vis, .. } => (scope, vis),
            _ => continue,
        };
        let s = &m.syms[l[d.name.as_str()].sym.unwrap()];
        ensure!(
            s.ext() == (scope != Scope::Local),
            "{:?} declared {scope:?} has symbol type {:#x}",
            d.name,
            s.typ
        );
        ensure!(
            (s.desc & 0x80 != 0) == (scope == Scope::Weak),
            "{:?} declared {scope:?} has description {:#x}",
            d.name,
            s.desc
        );
        ensure!(
            s.pext() == (scope != Scope::Local && vis == Vis::Hidden),
            "{:?} declared {scope:?} {vis:?} has symbol type {:#x}",
            d.name,
            s.typ
        );
    }
    for (n, _) in &p.imports {
        let s = m.by_name(n).next().unwrap().1;
        ensure!(
            s.undefined() && s.ext() && !s.pext() && s.sect == 0 && s.value == 0,
            "import {n:?}: {s:?}"
        );
    }
    Ok(())
}

pub fn mach_sections(p: &Program, m: &Mach, l: &Locs) -> Result<(), String> {
    let name = |i: usize| {
        format!(
            "{},{}",
            String::from_utf8_lossy(&m.secs[i].seg),
            String::from_utf8_lossy(&m.secs[i].sect)
        )
    };
    for d in &p.defs {
        let i = l[d.name.as_str()].sec;
        let s = &m.secs[i];
        let ty = s.flags & 0xff;
        match d.d {
            D::Fn { .. } => {
                ensure!(
                    s.seg == b"__TEXT" && ty == 0 && s.flags & 0x8000_0000 != 0,
                    "function {:?} lies in {} flags {:#x}",
                    d.name,
                    name(i),
                    s.flags
                );
            }
            D::Data { w, s: st, .. } => {
                ensure!(
                    s.flags & 0x8000_0400 == 0,
                    "data {:?} lies in {} which is code",
                    d.name,
                    name(i)
                );
                if d.body.is_zero() {
                    ensure!(
                        ty == 1 && s.seg == b"__DATA",
                        "zero-initialised {:?} lies in {} flags {:#x}",
                        d.name,
                        name(i),
                        s.flags
                    );
                } else if w {
                    ensure!(
                        s.seg == b"__DATA" && ty == 0,
                        "writable data {:?} lies in {} flags {:#x}",
                        d.name,
                        name(i),
                        s.flags
                    );
                } else if st {
                    ensure!(
                        ty == 2 && s.seg == b"__TEXT",
                        "string {:?} lies in {} flags {:#x}",
                        d.name,
                        name(i),
                        s.flags
                    );
                } else {
                    ensure!(ty == 0, "data {:?} lies in {} flags {:#x}", d.name, name(i), s.flags);
                }
            }
            D::Sec { kind, .. } => {
                ensure!(
                    s.seg == seg_of(kind),
                    "section {:?} of kind {kind:?} is {}",
                    d.name,
                    name(i)
                );
                ensure!(
                    (s.flags & 0x0200_0000 != 0) == (kind == SKind::Debug),
                    "section {:?} of kind {kind:?} has flags {:#x}",
                    d.name,
                    s.flags
                );
                ensure!(ty == 0 || ty == 2, "section {:?} has type {ty}", d.name);
                if let Some(al) = d.d.align() {
                    ensure!(
                        s.align < 64 && 1u64 << s.align == al,
                        "section {:?} declared aligned to {al} has 2^{}",
                        d.name,
                        s.align
                    );
                    ensure!(
                        s.addr % al == 0,
                        "section {:?} declared aligned to {al} is at {:#x}",
                        d.name,
                        s.addr
                    );
                }
            }
            _ => {}
        }
    }
    let custom: BTreeSet<usize> = p
        .defs
        .iter()
        .filter(|d| d.d.is_section())
        .map(|d| l[d.name.as_str()].sec)
        .collect();
    for (i, s) in m.secs.iter().enumerate() {
        let builtin = matches!(
            (&s.seg[..], &s.sect[..]),
            (b"__TEXT", b"__text") | (b"__DATA", b"__data") | (b"__TEXT", b"__cstring") | (b"__DATA", b"__bss")
        );
        ensure!(
            builtin || custom.contains(&i) || p.defs.iter().any(|d| l[d.name.as_str()].sec == i) || s.size == 0,
            "unexpected section {}",
            name(i)
        );
        // what pads literal strings is a string as well, and must not run into the next one
        if s.flags & 0xff == 2 && !custom.contains(&i) {
            let mut b = m.bytes(s)?.to_vec();
            for d in p.defs.iter() {
                let x = &l[d.name.as_str()];
                if x.sec == i {
                    let (a, e) = (x.off as usize, (x.off + x.len) as usize);
                    ensure!(e <= b.len(), "{:?} goes beyond section {}", d.name, name(i));
                    b[a..e].fill(0);
                }
            }
            if let Some(k) = b.iter().position(|x| *x != 0) {
                return Err(format!(
                    "section {} is padded with {:#x} at {k:#x}, which starts a string of its own",
                    name(i),
                    b[k]
                ));
            }
        }
    }
    Ok(())
}

/// (offset in source, type, pcrel, length, target) per source, in file order
pub fn mach_relocs<'p>(
    p: &'p Program,
    m: &Mach,
    l: &Locs<'p>,
) -> Result<BTreeMap<&'p str, Vec<(u64, u8, bool, u8, String)>>, String> {
    let mut bysec: BTreeMap<usize, Vec<(u64, u64, &'p str)>> = BTreeMap::new();
    for d in &p.defs {
        let x = &l[d.name.as_str()];
        if x.len > 0 {
            bysec.entry(x.sec).or_default().push((x.off, x.off + x.len, &d.name));
        }
    }
    for v in bysec.values_mut() {
        v.sort();
    }
    let mut out: BTreeMap<&str, Vec<_>> = BTreeMap::new();
    for (i, s) in m.secs.iter().enumerate() {
        for r in &s.rels {
            let a = r.addr as u32 as u64;
            let x = bysec
                .get(&i)
                .and_then(|v| {
                    let k = v.partition_point(|x| x.1 <= a);
                    v.get(k).filter(|x| x.0 <= a)
                })
                .ok_or(format!(
                    "relocation at {a:#x} of section {}, where no definition lies",
                    String::from_utf8_lossy(&s.sect)
                ))?;
            ensure!(r.ext, "relocation at {a:#x} is not external");
            let sym = m
                .syms
                .get(r.sym as usize)
                .ok_or("relocation symbol number out of range")?;
            let to = String::from_utf8_lossy(sym.name.get(1..).unwrap_or(b"")).to_string();
            out.entry(x.2).or_default().push((a - x.0, r.typ, r.pcrel, r.len, to));
        }
    }
    Ok(out)
}

/// What a Mach-O object has for a link, with the addresses it has
pub fn mach_rel_in(m: &Mach, from: D, to: D, rel: Rel) -> MRel {
    match mach_rel(from, to, rel) {
        MRel::Rel(0, pc, 3) if !m.big && !matches!(rel, Rel::Debug { .. }) => MRel::Rel(0, pc, 2),
        r => r,
    }
}

pub fn mach_links(p: &Program, m: &Mach, l: &Locs) -> Result<(), String> {
    let got = mach_relocs(p, m, l)?;
    let mut want: BTreeMap<&str, Vec<(u64, u8, bool, u8, String)>> = BTreeMap::new();
    for k in &p.links {
        let (fd, td) = (p.decl(&k.from).unwrap(), p.decl(&k.to).unwrap());
        match mach_rel_in(m, fd, td, k.rel) {
            MRel::Rel(t, pc, len) => want.entry(&k.from).or_default().push((k.at, t, pc, len, k.to.clone())),
            MRel::NoReloc => {}
            MRel::Refused => return Err(format!("harness: inexpressible link {k:?}")),
        }
    }
    cmp_links(&got, &want)
}

// ---------------------------------------------------------------- canonical descriptions

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CItem {
    pub class: u8,
    pub zero: bool,
    pub size: u64,
    pub bytes: Vec<u8>,
    pub bind: u8,
    pub vis: u8,
    pub align: u64,
    pub attrs: u64,
    pub syms: Vec<(String, u64)>,
    pub rels: Vec<(u64, u64, i64, String)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Canon {
    pub machine: u64,
    pub items: BTreeMap<String, CItem>,
    pub imports: BTreeSet<String>,
}

pub fn canon_elf(p: &Program, e: &Elf) -> Result<Canon, String> {
    let l = elf_locate(p, e)?;
    let rels = elf_relocs(p, e, &l)?;
    let mut items = BTreeMap::new();
    for d in &p.defs {
        let x = &l[d.name.as_str()];
        let s = &e.secs[x.sec];
        let size = x.sym.map_or(s.size, |i| e.syms[i].size);
        let b = e.bytes(s)?;
        let zero = s.typ == elf::SHT_NOBITS;
        let bytes = if zero {
            vec![]
        } else {
            b.get(x.off as usize..(x.off + size) as usize)
                .ok_or(format!("{:?} outside its section", d.name))?
                .to_vec()
        };
        let mut syms: Vec<(String, u64)> = vec![];
        for y in if d.d.is_section() { &e.syms[..] } else { &[] } {
            if y.typ() == 0 && y.defined_in() == Some(x.sec) && !y.name.is_empty() {
                syms.push((String::from_utf8_lossy(&y.name).to_string(), y.value));
            }
        }
        syms.sort();
        items.insert(
            d.name.clone(),
            CItem {
                class: x.sym.map_or(3, |i| e.syms[i].typ()),
                zero,
                size,
                bytes,
                bind: x.sym.map_or(0, |i| e.syms[i].bind()),
                vis: x.sym.map_or(0, |i| e.syms[i].vis()),
                align: s.align,
                attrs: s.flags,
                syms,
                rels: rels
                    .get(d.name.as_str())
                    .cloned()
                    .unwrap_or_default()
                    .into_iter()
                    .map(|(o, t, a, n)| (o, t as u64, a, n))
                    .collect(),
            },
        );
    }
    let imports = e
        .syms
        .iter()
        .skip(1)
        .filter(|s| s.raw_shndx == 0)
        .map(|s| String::from_utf8_lossy(&s.name).to_string())
        .collect();
    Ok(Canon {
        machine: e.machine as u64,
        items,
        imports,
    })
}

pub fn canon_mach(p: &Program, m: &Mach) -> Result<Canon, String> {
    let l = mach_locate(p, m)?;
    let rels = mach_relocs(p, m, &l)?;
    let mut items = BTreeMap::new();
    for d in &p.defs {
        let x = &l[d.name.as_str()];
        let s = &m.secs[x.sec];
        let size = if d.d.is_section() { s.size } else { d.body.mem_len() };
        let zero = s.zerofill();
        let bytes = if zero {
            vec![]
        } else {
            let b = m.bytes(s)?;
            b.get(x.off as usize..(x.off + size) as usize)
                .ok_or(format!("{:?} outside its section", d.name))?
                .to_vec()
        };
        let mut syms = vec![];
        if d.d.is_section() {
            for y in &m.syms {
                if y.typ & 0x0e == 0x0e && y.sect as usize == x.sec + 1 {
                    syms.push((
                        String::from_utf8_lossy(y.name.get(1..).unwrap_or(b"")).to_string(),
                        y.value.wrapping_sub(s.addr),
                    ));
                }
            }
            syms.sort();
        }
        let y = x.sym.map(|i| &m.syms[i]);
        items.insert(
            d.name.clone(),
            CItem {
                class: match d.d {
                    D::Fn { .. } => 2,
                    D::Data { .. } => 1,
                    _ => 3,
                },
                zero,
                size,
                bytes,
                bind: y.map_or(0, |y| {
                    if !y.ext() {
                        0
                    } else if y.desc & 0x80 != 0 {
                        2
                    } else {
                        1
                    }
                }),
                vis: y.map_or(0, |y| if y.pext() { 2 } else { 0 }),
                align: if d.d.is_section() { s.align as u64 } else { 0 },
                attrs: s.flags as u64,
                syms,
                rels: rels
                    .get(d.name.as_str())
                    .cloned()
                    .unwrap_or_default()
                    .into_iter()
                    .map(|(o, t, pc, len, n)| (o, t as u64 | (pc as u64) << 8 | (len as u64) << 16, 0, n))
                    .collect(),
            },
        );
    }
    let imports = m
        .syms
        .iter()
        .filter(|s| s.undefined())
        .map(|s| String::from_utf8_lossy(s.name.get(1..).unwrap_or(b"")).to_string())
        .collect();
    Ok(Canon {
        machine: m.cputype as u64,
        items,
        imports,
    })
}

pub fn canon_diff(a: &Canon, b: &Canon) -> Result<(), String> {
    ensure!(
        a.machine == b.machine,
        "machine types {:#x} and {:#x}",
        a.machine,
        b.machine
    );
    ensure!(a.imports == b.imports, "imports {:?} and {:?}", a.imports, b.imports);
    let names: BTreeSet<&String> = a.items.keys().chain(b.items.keys()).collect();
    for n in names {
        match (a.items.get(n), b.items.get(n)) {
            (Some(x), Some(y)) => item_diff(n, x, y)?,
            (x, _) => {
                return Err(format!(
                    "{n:?} is only in the {} object",
                    if x.is_some() { "first" } else { "second" }
                ))
            }
        }
    }
    Ok(())
}
pub fn item_diff(n: &str, x: &CItem, y: &CItem) -> Result<(), String> {
    ensure!(x.class == y.class, "{n:?}: kinds {} and {}", x.class, y.class);
    ensure!(
        x.zero == y.zero && x.size == y.size,
        "{n:?}: sizes {} and {}",
        x.size,
        y.size
    );
    ensure!(
        x.bytes == y.bytes,
        "{n:?}: contents differ: {}",
        diff(&x.bytes, &y.bytes)
    );
    ensure!(
        (x.bind, x.vis) == (y.bind, y.vis),
        "{n:?}: binding/visibility {:?} and {:?}",
        (x.bind, x.vis),
        (y.bind, y.vis)
    );
    ensure!(x.align == y.align, "{n:?}: alignments {} and {}", x.align, y.align);
    ensure!(
        x.attrs == y.attrs,
        "{n:?}: section flags {:#x} and {:#x}",
        x.attrs,
        y.attrs
    );
    ensure!(x.syms == y.syms, "{n:?}: custom symbols {:?} and {:?}", x.syms, y.syms);
    ensure!(x.rels == y.rels, "{n:?}: relocations {:?} and {:?}", x.rels, y.rels);
    Ok(())
}
