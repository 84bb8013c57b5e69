//! C19: x86-64 Mach-O objects are linked by lld's Mach-O linker into a dynamic library, and the
//! image is compared with what the definitions and links say.
use crate::drive::*;
use crate::elf::ensure;
use crate::link_elf::{run, Dir, Ran};
use crate::prog::*;
use crate::spec::*;
use crate::tape::*;
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::time::Duration;

struct Seg {
    name: String,
    va: u64,
    msz: u64,
    off: u64,
    fsz: u64,
    prot: u32,
}
struct Sect {
    name: String,
    addr: u64,
    size: u64,
}
struct Sym {
    name: String,
    typ: u8,
    value: u64,
}
struct Dylib {
    d: Vec<u8>,
    segs: Vec<Seg>,
    sects: Vec<Sect>,
    syms: Vec<Sym>,
    /// address -> symbol names bound there
    binds: BTreeMap<u64, BTreeSet<String>>,
    rebases: BTreeSet<u64>,
}
fn uleb(d: &[u8], i: &mut usize) -> u64 {
    let (mut v, mut s) = (0u64, 0);
    while let Some(b) = d.get(*i) {
        *i += 1;
        v |= u64::from(b & 0x7f).checked_shl(s).unwrap_or(0);
        s += 7;
        if b & 0x80 == 0 {
            break;
        }
    }
    v
}
impl Dylib {
    fn n(&self, o: u64, n: usize) -> Result<u64, String> {
        let b = self
            .d
            .get(o as usize..o as usize + n)
            .ok_or("the linked image is too short")?;
        Ok(b.iter().rev().fold(0, |a, x| a << 8 | *x as u64))
    }
    fn text(&self, o: u64, max: usize) -> String {
        let b = self.d.get(o as usize..).unwrap_or(&[]);
        let b = &b[..b.len().min(max)];
        let e = b.iter().position(|x| *x == 0).unwrap_or(b.len());
        String::from_utf8_lossy(&b[..e]).into_owned()
    }
    fn parse(d: Vec<u8>) -> Result<Dylib, String> {
        let mut m = Dylib {
            d,
            segs: vec![],
            sects: vec![],
            syms: vec![],
            binds: BTreeMap::new(),
            rebases: BTreeSet::new(),
        };
        let n = m.n(16, 4)?;
        let mut o = 32;
        let mut info = None;
        for _ in 0..n {
            let (c, sz) = (m.n(o, 4)?, m.n(o + 4, 4)?);
            match c {
                0x19 => {
                    let s = Seg {
                        name: m.text(o + 8, 16),
                        va: m.n(o + 24, 8)?,
                        msz: m.n(o + 32, 8)?,
                        off: m.n(o + 40, 8)?,
                        fsz: m.n(o + 48, 8)?,
                        prot: m.n(o + 60, 4)? as u32,
                    };
                    for k in 0..m.n(o + 64, 4)? {
                        let b = o + 72 + 80 * k;
                        let s = Sect {
                            name: m.text(b, 16),
                            addr: m.n(b + 32, 8)?,
                            size: m.n(b + 40, 8)?,
                        };
                        m.sects.push(s);
                    }
                    m.segs.push(s);
                }
                2 => {
                    let (so, k, st) = (m.n(o + 8, 4)?, m.n(o + 12, 4)?, m.n(o + 16, 4)?);
                    for i in 0..k {
                        let b = so + 16 * i;
                        let y = Sym {
                            name: m.text(st + m.n(b, 4)?, usize::MAX),
                            typ: m.n(b + 4, 1)? as u8,
                            value: m.n(b + 8, 8)?,
                        };
                        m.syms.push(y);
                    }
                }
                0x22 | 0x8000_0022 => info = Some(o),
                _ => {}
            }
            o += sz;
        }
        let o = info.ok_or("the linked image: no dyld info in the linked image")?;
        let part = |m: &Dylib, k: u64| -> Result<Vec<u8>, String> {
            let (a, n) = (m.n(o + 8 + 8 * k, 4)? as usize, m.n(o + 12 + 8 * k, 4)? as usize);
            Ok(m.d.get(a..a + n).ok_or("the linked image: dyld info outside")?.to_vec())
        };
        m.rebase(&part(&m, 0)?)?;
        for k in [1, 2, 3] {
            let p = part(&m, k)?;
            m.bind(&p, k == 3)?;
        }
        Ok(m)
    }
    fn seg_va(&self, i: u8) -> Result<u64, String> {
        Ok(self.segs.get(i as usize).ok_or("the linked image: segment")?.va)
    }
    fn rebase(&mut self, p: &[u8]) -> Result<(), String> {
        let (mut i, mut a) = (0, 0u64);
        while i < p.len() {
            let (op, imm) = (p[i] & 0xf0, p[i] & 15);
            i += 1;
            let mut put = |a: &mut u64, n: u64, skip: u64| {
                for _ in 0..n {
                    self.rebases.insert(*a);
                    *a = a.wrapping_add(8).wrapping_add(skip);
                }
            };
            match op {
                0x00 => break,
                0x10 => {}
                0x20 => {
                    a = self.seg_va(imm)?;
                    a = a.wrapping_add(uleb(p, &mut i))
                }
                0x30 => a = a.wrapping_add(uleb(p, &mut i)),
                0x40 => a += imm as u64 * 8,
                0x50 => put(&mut a, imm as u64, 0),
                0x60 => {
                    let n = uleb(p, &mut i);
                    put(&mut a, n, 0)
                }
                0x70 => {
                    let s = uleb(p, &mut i);
                    put(&mut a, 1, s)
                }
                0x80 => {
                    let n = uleb(p, &mut i);
                    let s = uleb(p, &mut i);
                    put(&mut a, n, s)
                }
                _ => return Err(format!("the linked image: rebase opcode {op:#x}")),
            }
        }
        Ok(())
    }
    fn bind(&mut self, p: &[u8], lazy: bool) -> Result<(), String> {
        let (mut i, mut a) = (0, 0u64);
        let mut name = String::new();
        while i < p.len() {
            let (op, imm) = (p[i] & 0xf0, p[i] & 15);
            i += 1;
            let mut put = |a: &mut u64, n: u64, skip: u64| {
                for _ in 0..n {
                    self.binds.entry(*a).or_default().insert(name.clone());
                    *a = a.wrapping_add(8).wrapping_add(skip);
                }
            };
            match op {
                0x00 if lazy => {}
                0x00 => break,
                0x10 | 0x30 | 0x50 => {}
                0x20 => {
                    uleb(p, &mut i);
                }
                0x40 => {
                    let e = p[i..]
                        .iter()
                        .position(|x| *x == 0)
                        .ok_or("the linked image: bind name")?;
                    name = String::from_utf8_lossy(&p[i..i + e]).into_owned();
                    i += e + 1;
                }
                0x60 => {
                    // an addend, signed
                    uleb(p, &mut i);
                }
                0x70 => {
                    a = self.seg_va(imm)?;
                    a = a.wrapping_add(uleb(p, &mut i))
                }
                0x80 => a = a.wrapping_add(uleb(p, &mut i)),
                0x90 => put(&mut a, 1, 0),
                0xa0 => {
                    let s = uleb(p, &mut i);
                    put(&mut a, 1, s)
                }
                0xb0 => put(&mut a, 1, imm as u64 * 8),
                0xc0 => {
                    let n = uleb(p, &mut i);
                    let s = uleb(p, &mut i);
                    put(&mut a, n, s)
                }
                _ => return Err(format!("the linked image: bind opcode {op:#x}")),
            }
        }
        Ok(())
    }
    fn mem(&self, va: u64, len: u64) -> Option<(Vec<u8>, &Seg)> {
        let s = self.segs.iter().find(|s| {
            s.name != "__LINKEDIT" && va >= s.va && va.checked_add(len).map_or(false, |e| e <= s.va + s.msz)
        })?;
        let a = va - s.va;
        let mut v = vec![];
        if a < s.fsz {
            let n = len.min(s.fsz - a);
            v.extend(self.d.get((s.off + a) as usize..(s.off + a + n) as usize)?);
        }
        v.resize(len as usize, 0);
        Some((v, s))
    }
    /// The symbol a pointer at this address is bound to at load, or the address it holds
    fn points_to(&self, va: u64, sym: &str, s: Option<u64>) -> Result<(), String> {
        let v = self
            .mem(va, 8)
            .map(|x| x.0.iter().rev().fold(0, |a, x| a << 8 | *x as u64));
        if let Some(b) = self.binds.get(&va) {
            ensure!(
                b.len() == 1 && b.contains(sym),
                "it is bound to {b:?} instead of {sym:?}"
            );
            return Ok(());
        }
        let s = s.ok_or(format!("it is not bound to {sym:?} but holds {v:x?}"))?;
        ensure!(v == Some(s), "it holds {v:x?} instead of {s:#x}");
        ensure!(self.rebases.contains(&va), "it is not relocated with the image");
        Ok(())
    }
}
fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

/// What the linker keeps when it leaves out what nothing refers to
fn reachable(us: &[Unit]) -> BTreeSet<At> {
    let w = winners(us);
    let (mut seen, mut todo) = (BTreeSet::new(), vec![]);
    for (u, x) in us.iter().enumerate() {
        for (n, d) in x.defs() {
            let root = match d {
                D::Fn { scope, vis, .. } | D::Data { scope, vis, .. } => scope != Scope::Local && vis != Vis::Hidden,
                // only what has a symbol there
                _ => false,
            };
            if root {
                todo.push(resolve(us, &w, u, n));
            }
        }
    }
    while let Some(at) = todo.pop() {
        if !seen.insert(at) {
            continue;
        }
        let (h, name) = match at {
            At::Fn(h, i) => (h, &us[h].fns[i].name),
            At::Data(h, i) => (h, &us[h].datas[i].name),
            _ => continue,
        };
        for l in us[h].links().iter().filter(|l| l.0 == *name) {
            todo.push(resolve(us, &w, h, &l.2));
        }
    }
    seen
}
fn check(us: &[Unit], m: &Dylib, dead_strip: bool) -> Result<(), String> {
    let w = winners(us);
    let kept = reachable(us);
    let mut adr: BTreeMap<At, u64> = BTreeMap::new();
    for (u, x) in us.iter().enumerate() {
        for (n, d) in x.defs() {
            let at = resolve(us, &w, u, n);
            if d.is_section() {
                if dead_strip {
                    continue;
                }
                let c: Vec<&Sect> = m.sects.iter().filter(|s| s.name == n).collect();
                ensure!(c.len() == 1, "custom section {n:?}: {} in the linked image", c.len());
                let At::Data(h, i) = at else {
                    return Err("the linked image: section".into());
                };
                let len = us[h].datas[i].body.mem_len();
                ensure!(
                    c[0].size == len,
                    "custom section {n:?}: {} bytes in the linked image, {len} given",
                    c[0].size
                );
                adr.insert(at, c[0].addr);
                continue;
            }
            let name = format!("_{n}");
            let c: Vec<&Sym> = m
                .syms
                .iter()
                .filter(|y| y.name == name && y.typ & 0x0e == 0x0e)
                .collect();
            if dead_strip && c.is_empty() && !kept.contains(&at) {
                continue;
            }
            ensure!(c.len() == 1, "{n:?}: {} symbols in the linked image", c.len());
            adr.insert(at, c[0].value);
        }
    }
    let mut spans: Vec<(u64, u64, String)> = vec![];
    for (u, x) in us.iter().enumerate() {
        for (n, d) in x.defs() {
            let at = resolve(us, &w, u, n);
            let Some(&va) = adr.get(&at) else {
                continue;
            };
            let (bytes, links, syms, writable) = match at {
                At::Fn(h, i) if h == u => {
                    let (b, l) = x.fns[i].code();
                    (b, l, vec![], false)
                }
                At::Data(h, i) if h == u => {
                    let y = &x.datas[i];
                    let l = y.ptrs.iter().map(|p| (p.at as u64, p.to.clone(), p.rel)).collect();
                    let b = match y.body {
                        Body::Zero(n) => vec![0; n as usize],
                        _ => y.body.bytes(),
                    };
                    (b, l, y.syms.clone(), y.writable())
                }
                _ => continue,
            };
            let len = bytes.len() as u64;
            if len == 0 {
                continue;
            }
            if let Some(a) = d.align() {
                ensure!(va % a == 0, "{n:?} is at {va:#x} in the linked image, alignment {a}");
            }
            let (got, seg) = m
                .mem(va, len)
                .ok_or(format!("{n:?}: the linked image has nothing at {va:#x}, {len} bytes"))?;
            if matches!(d, D::Fn { .. }) {
                ensure!(
                    seg.prot & 4 != 0,
                    "function {n:?} is in segment {} ({})",
                    seg.name,
                    seg.prot
                );
            }
            if writable {
                ensure!(
                    seg.prot & 2 != 0,
                    "writable {n:?} is in segment {} ({})",
                    seg.name,
                    seg.prot
                );
            }
            // equal strings may share their place
            if !matches!(d, D::Data { s: true, .. }) {
                spans.push((va, va + len, n.to_string()));
            }
            let mut skip: BTreeSet<usize> = BTreeSet::new();
            for (o, to, rel) in &links {
                let t = resolve(us, &w, u, to);
                let s = adr.get(&t).copied();
                let sym = format!("_{to}");
                let p = va + o;
                let o = *o as usize;
                let what = |e: String| format!("{n:?} at {o:#x}, linked to {to:?}: {e}");
                let data = matches!(d, D::Data { .. } | D::Sec { .. });
                if data {
                    m.points_to(p, &sym, s).map_err(what)?;
                    skip.extend(o..o + 8);
                    continue;
                }
                let _ = rel;
                let v = le(&got[o..o + 4]) as u32 as i32 as i64 as u64;
                let rip = p.wrapping_add(4).wrapping_add(v);
                let import = matches!(t, At::ExtF(_) | At::ExtD(_)) || x.imports.iter().any(|i| i.0 == *to);
                let fun = matches!(t, At::ExtF(_) | At::Fn(..));
                skip.extend(o..o + 4);
                if fun {
                    if Some(rip) != s {
                        // a stub
                        let (b, _) = m.mem(rip, 6).ok_or(what(format!("a call to {rip:#x}")))?;
                        ensure!(
                            b[..2] == [0xff, 0x25],
                            "{}",
                            what(format!("a call to {rip:#x}, instead of {s:x?}"))
                        );
                        let slot = rip
                            .wrapping_add(6)
                            .wrapping_add(le(&b[2..]) as u32 as i32 as i64 as u64);
                        m.points_to(slot, &sym, s).map_err(what)?;
                    }
                } else if import {
                    // a load from the table, or the address itself
                    skip.extend(o - 3..o);
                    match &got[o - 3..o] {
                        [0x48, 0x8b, 0x05] => m.points_to(rip, &sym, s).map_err(what)?,
                        [0x48, 0x8d, 0x05] => {
                            ensure!(
                                Some(rip) == s,
                                "{}",
                                what(format!("refers to {rip:#x} instead of {s:x?}"))
                            )
                        }
                        b => return Err(what(format!("a load has become {b:x?}"))),
                    }
                } else {
                    ensure!(
                        Some(rip) == s,
                        "{}",
                        what(format!("refers to {rip:#x} instead of {s:x?}"))
                    );
                }
            }
            if let Some(i) = (0..bytes.len()).find(|i| bytes[*i] != got[*i] && !skip.contains(i)) {
                return Err(format!(
                    "byte {i:#x} of {n:?} is {:#x} in the linked image instead of {:#x}",
                    got[i], bytes[i]
                ));
            }
            for (s, off) in &syms {
                let name = format!("_{s}");
                let c: Vec<u64> = m.syms.iter().filter(|y| y.name == name).map(|y| y.value).collect();
                ensure!(
                    c == [va + off],
                    "custom symbol {s:?} is at {c:x?} in the linked image instead of {:#x}",
                    va + off
                );
            }
        }
    }
    spans.sort();
    for p in spans.windows(2) {
        ensure!(
            p[0].1 <= p[1].0,
            "{:?} and {:?} overlap in the linked image",
            p[0].2,
            p[1].2
        );
    }
    Ok(())
}

pub fn c19_units(t: &Tape) -> Vec<Unit> {
    let cfg = Cfg {
        units: 1 + (t.hdr[3] as usize * 4 >> 16) / 3,
        pic: true,
        shared: false,
        raw: false,
        shared_names: false,
        debug: false,
        secs: t.hdr[2] % 4 != 0,
        inplace: true,
    };
    let mut us = units(t, cfg);
    if arm(t) {
        // machine code is content only
        us.iter_mut()
            .flat_map(|u| u.fns.iter_mut())
            .for_each(|f| f.steps.clear());
    }
    us
}
fn arm(t: &Tape) -> bool {
    t.hdr[0] % 4 == 0
}
/// unreferenced definitions may be left out
fn dead_strip(t: &Tape) -> bool {
    t.hdr[1] % 8 == 0
}
pub fn c19_show(t: &Tape) -> String {
    let a = if arm(t) { "arm64" } else { "x86_64" };
    let d = if dead_strip(t) { " -dead_strip" } else { "" };
    format!("{a}{d}\n{}", show(&c19_units(t)))
}
pub fn c19(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let us = c19_units(t);
    let mut mix = Mix::of(&t.hdr);
    let dir = Dir(cx.tmp("link"));
    std::fs::create_dir_all(&dir.0).map_err(|e| format!("harness: {e}"))?;
    let mut c = Command::new("/usr/bin/ld64.lld-18");
    c.args([
        "-arch",
        if arm(t) { "arm64" } else { "x86_64" },
        "-platform_version",
        "macos",
        "10.15",
        "10.15",
        "-dylib",
    ]);
    c.args(["-undefined", "dynamic_lookup", "-o"]).arg(dir.0.join("out"));
    if dead_strip(t) {
        c.arg("-dead_strip");
    }
    for (i, u) in us.iter().enumerate() {
        let target = if arm(t) {
            "aarch64-apple-darwin"
        } else {
            "x86_64-apple-darwin"
        };
        let k = u.case(target, &mut mix);
        let mut a = k.artifact();
        for op in &k.ops {
            if let Err(e) = call(&mut a, op)? {
                return Err(format!("{op:?} refused: {e}"));
            }
        }
        let b = emit_as(&a, MACHO).bytes("Mach-O emission of a complete artifact")?;
        let f = dir.0.join(format!("{i}.o"));
        std::fs::write(&f, b).map_err(|e| format!("harness: {e}"))?;
        c.arg(f);
    }
    match run(&mut c, &dir.0.join("err"), Duration::from_secs(60)) {
        Ran::Done(d) if d.ok => {}
        Ran::Done(d) => {
            return Err(format!(
                "the linker rejects the object: {}; {}",
                d.status,
                d.err.lines().take(4).collect::<Vec<_>>().join(" | ")
            ))
        }
        Ran::NoStart(e) => return Err(format!("harness: ld64.lld: {e}")),
        Ran::Late => {
            cx.add("links without an answer", 1);
            return Ok(());
        }
    }
    if let Some(k) = std::env::var_os("VERIF_KEEP") {
        for n in ["0.o", "1.o", "out"] {
            let _ = std::fs::copy(dir.0.join(n), std::path::Path::new(&k).join(n));
        }
    }
    let m = std::fs::read(dir.0.join("out")).map_err(|e| format!("harness: {e}"))?;
    check(&us, &Dylib::parse(m)?, dead_strip(t))?;
    crate::link_elf::classes(cx, &us, if us.len() > 1 { "two units" } else { "one unit" });
    cx.add("images linked and compared", 1);
    if us[0].fns.len() >= 2 && us[0].links().len() >= 3 {
        cx.nontrivial(&us, || c19_show(t));
    }
    Ok(())
}
