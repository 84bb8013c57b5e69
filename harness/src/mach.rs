//! An independent, strict Mach-O reader for relocatable objects.
use crate::elf::{ensure, Rd};
use crate::spec::Tgt;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Sec {
    pub sect: Vec<u8>,
    pub seg: Vec<u8>,
    pub addr: u64,
    pub size: u64,
    pub off: u64,
    pub align: u32,
    pub reloff: u64,
    pub nreloc: u64,
    pub flags: u32,
    pub rels: Vec<Rel>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rel {
    pub addr: i32,
    pub sym: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub typ: u8,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sym {
    pub name: Vec<u8>,
    pub typ: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
impl Sym {
    pub fn undefined(&self) -> bool {
        self.typ & 0x0e == 0
    }
    pub fn ext(&self) -> bool {
        self.typ & 1 != 0
    }
    pub fn pext(&self) -> bool {
        self.typ & 0x10 != 0
    }
}
#[derive(Clone, Debug)]
pub struct Mach<'a> {
    pub data: &'a [u8],
    pub big: bool,
    pub le: bool,
    pub cputype: u32,
    pub cpusub: u32,
    pub filetype: u32,
    pub flags: u32,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub symoff: u64,
    pub stroff: u64,
    pub strsize: u64,
    pub endcmds: u64,
    index: crate::elf::Index,
}
fn fixed(b: &[u8]) -> Vec<u8> {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    b[..n].to_vec()
}
impl Sec {
    pub fn zerofill(&self) -> bool {
        self.flags & 0xff == 1
    }
}

pub fn parse(d: &[u8]) -> Result<Mach<'_>, String> {
    ensure!(d.len() >= 28, "file too short");
    let (big, le) = match &d[..4] {
        [0xcf, 0xfa, 0xed, 0xfe] => (true, true),
        [0xce, 0xfa, 0xed, 0xfe] => (false, true),
        [0xfe, 0xed, 0xfa, 0xcf] => (true, false),
        [0xfe, 0xed, 0xfa, 0xce] => (false, false),
        _ => return Err("no Mach-O magic".into()),
    };
    let r = Rd { d, le };
    let ncmds = r.u32(16)?;
    let sizeofcmds = r.u32(20)? as u64;
    let mut o = if big { 32 } else { 28 };
    let endcmds = o + sizeofcmds;
    r.at(o, sizeofcmds)?;
    let mut m = Mach {
        data: d,
        big,
        le,
        cputype: r.u32(4)?,
        cpusub: r.u32(8)?,
        filetype: r.u32(12)?,
        flags: r.u32(24)?,
        vmaddr: 0,
        vmsize: 0,
        fileoff: 0,
        filesize: 0,
        secs: vec![],
        syms: vec![],
        symoff: 0,
        stroff: 0,
        strsize: 0,
        index: Default::default(),
        endcmds,
    };
    let mut segs = 0;
    let mut symtabs = 0;
    for i in 0..ncmds {
        let cmd = r.u32(o)?;
        let size = r.u32(o + 4)? as u64;
        ensure!(
            size >= 8 && o + size <= endcmds,
            "load command {i} of {size} bytes leaves the command area"
        );
        ensure!(
            size % if big { 8 } else { 4 } == 0,
            "load command {i} size {size} is not a multiple of the word size"
        );
        match cmd {
            1 | 0x19 => {
                ensure!(
                    (cmd == 0x19) == big,
                    "segment command {cmd:#x} does not suit the word size"
                );
                segs += 1;
                let p = if big { 8 } else { 4 };
                m.vmaddr = r.u(o + 24, p)?;
                m.vmsize = r.u(o + 24 + p, p)?;
                m.fileoff = r.u(o + 24 + 2 * p, p)?;
                m.filesize = r.u(o + 24 + 3 * p, p)?;
                let nsects = r.u32(o + 24 + 4 * p + 8)? as u64;
                let hdr = if big { 72 } else { 56 };
                let ss = if big { 80 } else { 68 };
                ensure!(
                    size == hdr + nsects * ss,
                    "segment command of {size} bytes with {nsects} sections"
                );
                for k in 0..nsects {
                    let b = o + hdr + k * ss;
                    let q = b + 32 + 2 * p;
                    let mut s = Sec {
                        sect: fixed(r.at(b, 16)?),
                        seg: fixed(r.at(b + 16, 16)?),
                        addr: r.u(b + 32, p)?,
                        size: r.u(b + 32 + p, p)?,
                        off: r.u32(q)? as u64,
                        align: r.u32(q + 4)?,
                        reloff: r.u32(q + 8)? as u64,
                        nreloc: r.u32(q + 12)? as u64,
                        flags: r.u32(q + 16)?,
                        rels: vec![],
                    };
                    if s.nreloc > 0 {
                        r.at(s.reloff, s.nreloc * 8)?;
                    }
                    for j in 0..s.nreloc {
                        let w0 = r.u32(s.reloff + j * 8)?;
                        let w1 = r.u32(s.reloff + j * 8 + 4)?;
                        ensure!(w0 & 0x8000_0000 == 0, "scattered or negative relocation");
                        // bit fields are laid out from the other end on big-endian targets
                        s.rels.push(if !r.le {
                            Rel {
                                addr: w0 as i32,
                                sym: w1 >> 8,
                                pcrel: w1 >> 7 & 1 != 0,
                                len: (w1 >> 5 & 3) as u8,
                                ext: w1 >> 4 & 1 != 0,
                                typ: (w1 & 15) as u8,
                            }
                        } else {
                            Rel {
                                addr: w0 as i32,
                                sym: w1 & 0xff_ffff,
                                pcrel: w1 >> 24 & 1 != 0,
                                len: (w1 >> 25 & 3) as u8,
                                ext: w1 >> 27 & 1 != 0,
                                typ: (w1 >> 28) as u8,
                            }
                        });
                    }
                    m.secs.push(s);
                }
            }
            2 => {
                symtabs += 1;
                ensure!(size == 24, "symtab command size {size}");
                m.symoff = r.u32(o + 8)? as u64;
                let nsyms = r.u32(o + 12)? as u64;
                m.stroff = r.u32(o + 16)? as u64;
                m.strsize = r.u32(o + 20)? as u64;
                let ns = if big { 16 } else { 12 };
                r.at(m.symoff, nsyms * ns)?;
                r.at(m.stroff, m.strsize)?;
                for k in 0..nsyms {
                    let b = m.symoff + k * ns;
                    let strx = r.u32(b)? as u64;
                    m.syms.push(Sym {
                        name: r
                            .cstr(m.stroff, m.strsize, strx)
                            .map_err(|e| format!("symbol {k}: {e}"))?,
                        typ: r.u8(b + 4)?,
                        sect: r.u8(b + 5)?,
                        desc: r.u16(b + 6)?,
                        value: r.u(b + 8, if big { 8 } else { 4 })?,
                    });
                }
            }
            c => return Err(format!("unexpected load command {c:#x}")),
        }
        o += size;
    }
    ensure!(o == endcmds, "load commands end at {o:#x}, header says {endcmds:#x}");
    ensure!(segs == 1, "{segs} segments");
    ensure!(symtabs == 1, "{symtabs} symbol tables");
    Ok(m)
}

impl<'a> Mach<'a> {
    pub fn bytes(&self, s: &Sec) -> Result<&'a [u8], String> {
        if s.zerofill() {
            return Ok(&[]);
        }
        Rd {
            d: self.data,
            le: self.le,
        }
        .at(s.off, s.size)
    }
    pub fn by_name<'b>(&'b self, n: &'b str) -> impl Iterator<Item = (usize, &'b Sym)> + 'b {
        crate::elf::index(
            &self.index,
            self.syms.iter().map(|s| &s.name),
            format!("_{n}").as_bytes(),
        )
        .map(move |i| (i, &self.syms[i]))
    }
}

pub fn validate(m: &Mach, t: &Tgt) -> Result<(), String> {
    ensure!(m.big == t.big, "word size does not suit the target");
    ensure!(m.le == t.le, "byte order does not suit the target");
    ensure!(m.filetype == 1, "file type {} is not MH_OBJECT", m.filetype);
    let flen = m.data.len() as u64;
    ensure!(
        m.fileoff.checked_add(m.filesize).map_or(false, |x| x <= flen),
        "segment outside the file"
    );
    let mut ranges: Vec<(u64, u64, String)> = vec![(0, m.endcmds, "header and load commands".into())];
    let mut vm: Vec<(u64, u64, String)> = vec![];
    for (i, s) in m.secs.iter().enumerate() {
        let nm = String::from_utf8_lossy(&s.sect).to_string();
        ensure!(s.align < 32, "section {nm} alignment 2^{}", s.align);
        let end = s.addr.checked_add(s.size).ok_or("section address overflow")?;
        ensure!(
            s.addr >= m.vmaddr && end <= m.vmaddr.saturating_add(m.vmsize),
            "section {i} {nm} [{:#x},{end:#x}) outside the segment of {:#x} bytes",
            s.addr,
            m.vmsize
        );
        if s.size > 0 {
            vm.push((s.addr, end, nm.clone()));
            ensure!(
                s.addr % (1u64 << s.align) == 0,
                "section {nm} at {:#x} is not aligned to 2^{}",
                s.addr,
                s.align
            );
        }
        if !s.zerofill() && s.size > 0 {
            let fe = s.off.checked_add(s.size).ok_or("overflow")?;
            ensure!(fe <= flen, "section {nm} outside the file");
            ensure!(
                s.off >= m.fileoff && fe <= m.fileoff + m.filesize,
                "section {nm} [{:#x},{fe:#x}) outside the segment's file range [{:#x},{:#x})",
                s.off,
                m.fileoff,
                m.fileoff + m.filesize
            );
            ranges.push((s.off, fe, format!("section {nm}")));
        }
        if s.nreloc > 0 {
            ensure!(!s.zerofill(), "relocations in zero-fill section {nm}");
            ranges.push((s.reloff, s.reloff + s.nreloc * 8, format!("relocations of {nm}")));
        }
        for r in &s.rels {
            ensure!(r.ext, "non-external relocation");
            ensure!(
                (r.sym as usize) < m.syms.len(),
                "relocation against symbol {} of {}",
                r.sym,
                m.syms.len()
            );
            ensure!(
                r.addr as u64 + (1u64 << r.len) <= s.size,
                "relocation at {:#x} outside section {nm} of {:#x} bytes",
                r.addr,
                s.size
            );
        }
    }
    let ns = if m.big { 16 } else { 12 };
    if !m.syms.is_empty() {
        ranges.push((m.symoff, m.symoff + ns * m.syms.len() as u64, "symbol table".into()));
    }
    if m.strsize > 0 {
        ranges.push((m.stroff, m.stroff + m.strsize, "string table".into()));
    }
    ranges.sort();
    for w in ranges.windows(2) {
        ensure!(w[0].1 <= w[1].0, "{} overlaps {}", w[0].2, w[1].2);
    }
    vm.sort();
    for w in vm.windows(2) {
        ensure!(
            w[0].1 <= w[1].0,
            "section {} overlaps section {} in memory",
            w[0].2,
            w[1].2
        );
    }
    for (i, s) in m.syms.iter().enumerate() {
        let nm = String::from_utf8_lossy(&s.name);
        ensure!(s.typ & 0xe0 == 0, "debugging symbol {i} {nm}");
        match s.typ & 0x0e {
            0 => {
                ensure!(s.sect == 0 && s.ext() && s.value == 0, "undefined symbol {nm}: {s:?}");
            }
            0x0e => {
                let k = s.sect as usize;
                ensure!(
                    k >= 1 && k <= m.secs.len(),
                    "symbol {nm} in section ordinal {k} of {}",
                    m.secs.len()
                );
                let c = &m.secs[k - 1];
                ensure!(
                    s.value >= c.addr && s.value <= c.addr + c.size,
                    "symbol {nm} at {:#x} outside its section [{:#x},{:#x}]",
                    s.value,
                    c.addr,
                    c.addr + c.size
                );
            }
            t => return Err(format!("symbol {nm} type {t:#x}")),
        }
    }
    if m.strsize > 0 {
        let b = Rd { d: m.data, le: m.le }.at(m.stroff, m.strsize)?;
        ensure!(*b.last().unwrap() == 0, "string table not NUL-terminated");
    }
    Ok(())
}
