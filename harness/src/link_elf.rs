//! C12 and C25: x86-64 ELF objects are linked by the system linkers, the linked image is compared
//! with what the definitions and links say, and the program is run and its answer compared with the
//! interpreter's.
use crate::drive::*;
use crate::elf::ensure;
use crate::prog::*;
use crate::spec::*;
use crate::tape::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const LINKERS: [&str; 3] = ["/usr/bin/ld.bfd", "/usr/bin/ld.lld-18", "/usr/bin/ld.gold"];

const START: &str = "
.text
.globl _start
_start:
  mov $157,%eax
  mov $22,%edi
  mov $1,%esi
  syscall            # strict seccomp: from here only read, write and exit
  xor %r14d,%r14d
  mov $50,%r15d
  call entry@PLT
  push %r14
  mov $1,%eax
  mov $1,%edi
  mov %rsp,%rsi
  mov $8,%edx
  syscall
  mov $60,%eax
  xor %edi,%edi
  syscall
.section .note.GNU-stack,\"\",@progbits
";
fn ext_asm() -> String {
    let mut s = String::from(".text\n");
    for (i, v) in EXT_F.iter().enumerate() {
        s += &format!(
            ".globl ext_f{i}\n.type ext_f{i},@function\next_f{i}:\n imul $33,%r14,%r14\n add ${v},%r14\n ret\n.size ext_f{i},.-ext_f{i}\n"
        );
    }
    s += ".data\n";
    for i in 0..2 {
        let b: Vec<String> = ext_d(i).iter().map(|x| x.to_string()).collect();
        s += &format!(
            ".globl ext_d{i}\n.type ext_d{i},@object\n.balign 16\next_d{i}:\n .byte {}\n.size ext_d{i},16\n",
            b.join(",")
        );
    }
    s + ".section .note.GNU-stack,\"\",@progbits\n"
}

/// Output of a program that ends by itself; None: it did not start or did not end in time.
pub struct Done {
    pub ok: bool,
    pub status: String,
    pub out: Vec<u8>,
    pub err: String,
}
pub enum Ran {
    Done(Done),
    Late,
    NoStart(String),
}
pub fn run(cmd: &mut Command, err: &Path, limit: Duration) -> Ran {
    let f = match std::fs::File::create(err) {
        Ok(f) => f,
        Err(e) => return Ran::NoStart(e.to_string()),
    };
    let mut c = match cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(f).spawn() {
        Ok(c) => c,
        Err(e) => return Ran::NoStart(e.to_string()),
    };
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.by_ref().take(1 << 20).read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let mut nap = 200;
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let out = rd.join().unwrap_or_default();
                let e = std::fs::read(err).unwrap_or_default();
                return Ran::Done(Done {
                    ok: st.success(),
                    status: st.to_string(),
                    out,
                    err: String::from_utf8_lossy(&e).trim().to_string(),
                });
            }
            Ok(None) if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return Ran::Late;
            }
            Ok(None) => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(5000);
            }
            Err(e) => return Ran::NoStart(e.to_string()),
        }
    }
}
const LIMIT: Duration = Duration::from_secs(60);

static DRIVER: Mutex<Option<Result<PathBuf, String>>> = Mutex::new(None);
/// start.o, ext.o and libext.so, made once per process
fn driver(cx: &Cx) -> Result<PathBuf, String> {
    let mut g = DRIVER.lock().unwrap();
    if let Some(r) = &*g {
        return r.clone();
    }
    let dir = cx.scratch.join("driver");
    let make = || -> Result<PathBuf, String> {
        let e = |x: std::io::Error| format!("harness: {x}");
        std::fs::create_dir_all(&dir).map_err(e)?;
        for (n, text) in [("start", START.to_string()), ("ext", ext_asm())] {
            let s = dir.join(format!("{n}.s"));
            std::fs::write(&s, text).map_err(e)?;
            let mut c = Command::new("/usr/bin/as");
            c.arg("-o").arg(dir.join(format!("{n}.o"))).arg(&s);
            ok(run(&mut c, &dir.join("err"), LIMIT), "as")?;
        }
        let mut c = Command::new("/usr/bin/ld.bfd");
        c.args(["-shared", "-soname", "libext.so", "-o"])
            .arg(dir.join("libext.so"))
            .arg(dir.join("ext.o"));
        ok(run(&mut c, &dir.join("err"), LIMIT), "ld.bfd")?;
        Ok(dir.clone())
    };
    let r = make();
    *g = Some(r.clone());
    r
}
fn ok(r: Ran, what: &str) -> Result<(), String> {
    match r {
        Ran::Done(d) if d.ok => Ok(()),
        Ran::Done(d) => Err(format!("harness: {what}: {} {}", d.status, d.err)),
        Ran::Late => Err(format!("harness: {what}: no end")),
        Ran::NoStart(e) => Err(format!("harness: {what}: {e}")),
    }
}

// ------------------------------------------------------------------ linked images

pub struct ISym {
    pub name: String,
    pub bind: u8,
    pub typ: u8,
    pub vis: u8,
    pub shndx: u16,
    pub value: u64,
    pub size: u64,
    /// the file symbol it follows
    pub file: String,
}
struct Seg {
    flags: u32,
    off: u64,
    va: u64,
    fsz: u64,
    msz: u64,
}
struct ISec {
    name: String,
    typ: u32,
    addr: u64,
    off: u64,
    size: u64,
    link: u32,
}
pub struct Img {
    d: Vec<u8>,
    be: bool,
    segs: Vec<Seg>,
    secs: Vec<ISec>,
    pub syms: Vec<ISym>,
    pub dynsyms: Vec<ISym>,
}
impl Img {
    fn n(&self, o: u64, n: usize) -> Result<u64, String> {
        let b = self
            .d
            .get(o as usize..o as usize + n)
            .ok_or("the linked image is too short")?;
        Ok(self.num(b))
    }
    pub fn num(&self, b: &[u8]) -> u64 {
        if self.be {
            b.iter().fold(0, |a, x| a << 8 | *x as u64)
        } else {
            le(b)
        }
    }
    fn put(&self, b: &mut [u8], v: u64) {
        let n = b.len();
        if self.be {
            b.copy_from_slice(&v.to_be_bytes()[8 - n..])
        } else {
            b.copy_from_slice(&v.to_le_bytes()[..n])
        }
    }
    fn cstr(&self, o: u64) -> String {
        let b = self.d.get(o as usize..).unwrap_or(&[]);
        let e = b.iter().position(|x| *x == 0).unwrap_or(b.len());
        String::from_utf8_lossy(&b[..e]).into_owned()
    }
    pub fn parse(d: Vec<u8>) -> Result<Img, String> {
        let mut m = Img {
            be: d.get(5) == Some(&2),
            d,
            segs: vec![],
            secs: vec![],
            syms: vec![],
            dynsyms: vec![],
        };
        // the size of an address
        let a: u64 = if m.n(4, 1)? == 2 { 8 } else { 4 };
        let w = a as usize;
        let big = a == 8;
        let (ph, sh) = (m.n(24 + a, w)?, m.n(24 + 2 * a, w)?);
        let e = 24 + 3 * a; // flags, ehsize, phentsize, phnum, shentsize, shnum, shstrndx
        let (pn, sn, ss) = (m.n(e + 8, 2)?, m.n(e + 12, 2)?, m.n(e + 14, 2)?);
        let (pz, sz, yz) = if big { (56, 64, 24) } else { (32, 40, 16) };
        for i in 0..pn {
            let b = ph + pz * i;
            if m.n(b, 4)? == 1 {
                let f = |k: u64| b + if big { 8 } else { 4 } + k * a; // offset, vaddr, paddr, filesz, memsz
                let s = Seg {
                    flags: m.n(b + if big { 4 } else { 24 }, 4)? as u32,
                    off: m.n(f(0), w)?,
                    va: m.n(f(1), w)?,
                    fsz: m.n(f(3), w)?,
                    msz: m.n(f(4), w)?,
                };
                m.segs.push(s);
            }
        }
        let field = |b: u64, k: u64| b + 8 + k * a; // flags, addr, offset, size
        let stroff = m.n(field(sh + sz * ss, 2), w)?;
        for i in 0..sn {
            let b = sh + sz * i;
            let s = ISec {
                name: m.cstr(stroff + m.n(b, 4)?),
                typ: m.n(b + 4, 4)? as u32,
                addr: m.n(field(b, 1), w)?,
                off: m.n(field(b, 2), w)?,
                size: m.n(field(b, 3), w)?,
                link: m.n(field(b, 4), 4)? as u32,
            };
            m.secs.push(s);
        }
        for typ in [2, 11] {
            let Some(s) = m.secs.iter().find(|s| s.typ == typ) else {
                continue;
            };
            let (off, n, st) = (s.off, s.size / yz, m.secs[s.link as usize].off);
            let mut v = vec![];
            let mut file = String::new();
            for i in 0..n {
                let b = off + yz * i;
                // value and size come before or after the rest
                let (i, x, z) = if big { (4, 8, 16) } else { (12, 4, 8) };
                let info = m.n(b + i, 1)? as u8;
                let y = ISym {
                    name: m.cstr(st + m.n(b, 4)?),
                    bind: info >> 4,
                    typ: info & 15,
                    vis: m.n(b + i + 1, 1)? as u8 & 3,
                    shndx: m.n(b + i + 2, 2)? as u16,
                    value: m.n(b + x, w)?,
                    size: m.n(b + z, w)?,
                    file: file.clone(),
                };
                if y.typ == 4 {
                    file = y.name.clone();
                }
                v.push(y);
            }
            if typ == 2 {
                m.syms = v
            } else {
                m.dynsyms = v
            }
        }
        Ok(m)
    }
    /// memory after loading, and the flags of its segment
    pub fn mem(&self, va: u64, len: u64) -> Option<(Vec<u8>, u32)> {
        let s = self
            .segs
            .iter()
            .find(|s| va >= s.va && va.checked_add(len).map_or(false, |e| e <= s.va + s.msz))?;
        let a = va - s.va;
        let mut v = vec![];
        if a < s.fsz {
            let n = len.min(s.fsz - a);
            v.extend(self.d.get((s.off + a) as usize..(s.off + a + n) as usize)?);
        }
        v.resize(len as usize, 0);
        Some((v, s.flags))
    }
    fn sec(&self, name: &str) -> Option<&ISec> {
        self.secs.iter().find(|s| s.name == name)
    }
}

/// address of every definition in the image
fn addresses(us: &[Unit], m: &Img) -> Result<BTreeMap<At, u64>, String> {
    let w = winners(us);
    let mut out = BTreeMap::new();
    for (i, s) in ["ext_f0", "ext_f1", "ext_d0", "ext_d1"].iter().enumerate() {
        if let Some(y) = m.syms.iter().find(|y| y.name == *s && y.shndx != 0) {
            let at = if i < 2 { At::ExtF(i) } else { At::ExtD(i - 2) };
            out.insert(at, y.value);
        }
    }
    for (u, x) in us.iter().enumerate() {
        for (n, d) in x.defs() {
            let at = resolve(us, &w, u, n);
            if d.is_section() {
                let s = m
                    .sec(n)
                    .ok_or(format!("custom section {n:?} is not in the linked program"))?;
                out.insert(at, s.addr);
                continue;
            }
            if out.contains_key(&at) {
                continue;
            }
            let local = d.scope() == Scope::Local;
            let c: Vec<&ISym> = m
                .syms
                .iter()
                .filter(|y| y.name == n && y.shndx != 0 && (y.typ == 1 || y.typ == 2))
                .filter(|y| {
                    if local {
                        y.bind == 0 && y.file == x.file
                    } else {
                        y.bind != 0
                            || !us
                                .iter()
                                .any(|o| o.file == y.file && o.d(n).map_or(false, |d| d.scope() == Scope::Local))
                    }
                })
                .collect();
            let empty = matches!(at, At::Data(h, i) if us[h].datas[i].body.mem_len() == 0);
            if empty && c.is_empty() {
                // a linker may leave out what takes no space
                continue;
            }
            ensure!(
                c.len() == 1,
                "{n:?} of {}: {} symbols in the linked program instead of one",
                x.file,
                c.len()
            );
            let typ = if matches!(d, D::Fn { .. }) { 2 } else { 1 };
            ensure!(c[0].typ == typ, "{n:?}: symbol type {} in the linked program", c[0].typ);
            out.insert(at, c[0].value);
        }
    }
    Ok(out)
}
fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
/// The relocation types of x86-64 that programs use: number, width, relative to the place
pub const X86_64: &[(u32, usize, bool)] = &[
    (1, 8, false),
    (10, 4, false),
    (11, 4, false),
    (2, 4, true),
    (4, 4, true),
];
/// The statically linked image holds every definition, relocated as its links say.
pub fn image(us: &[Unit], m: &Img, kinds: &[(u32, usize, bool)]) -> Result<(), String> {
    let w = winners(us);
    // a hidden definition has become local in the image: beside a local one of its name there is no
    // telling which symbol is which
    for (n, u) in &w {
        let hidden = matches!(
            us[*u].d(n),
            Some(D::Fn { vis: Vis::Hidden, .. } | D::Data { vis: Vis::Hidden, .. })
        );
        if hidden && us.iter().any(|o| o.d(n).map_or(false, |d| d.scope() == Scope::Local)) {
            return Ok(());
        }
    }
    let adr = addresses(us, m)?;
    let mut spans: Vec<(u64, u64, String)> = vec![];
    for (u, x) in us.iter().enumerate() {
        for (n, d) in x.defs() {
            let at = resolve(us, &w, u, n);
            let mine = match at {
                At::Fn(h, _) | At::Data(h, _) => h == u,
                _ => false,
            };
            if !mine {
                continue;
            }
            let Some(&va) = adr.get(&at) else {
                continue;
            };
            let (bytes, links, zero) = match at {
                At::Fn(_, i) => {
                    let (b, l) = x.fns[i].code();
                    (b, l, None)
                }
                At::Data(_, i) => {
                    let y = &x.datas[i];
                    let l = y.ptrs.iter().map(|p| (p.at as u64, p.to.clone(), p.rel)).collect();
                    match y.body {
                        Body::Zero(n) => (vec![], l, Some(n)),
                        _ => (y.body.bytes(), l, None),
                    }
                }
                _ => continue,
            };
            let len = zero.unwrap_or(bytes.len() as u64);
            if len == 0 {
                continue;
            }
            let debug = matches!(d, D::Sec { kind: SKind::Debug, .. });
            if let Some(a) = d.align() {
                if !debug && va % a != 0 {
                    return Err(format!("{n:?} is at {va:#x} in the linked program, alignment {a}"));
                }
            }
            let mut merged = d.wants_cstr();
            let got = if debug {
                let s = m.sec(n).unwrap();
                if merged {
                    // linkers merge these
                    continue;
                }
                ensure!(s.size == len, "{n:?}: {} bytes linked, {len} given", s.size);
                m.d.get(s.off as usize..(s.off + s.size) as usize)
                    .ok_or("section outside")?
                    .to_vec()
            } else {
                let (b, flags) = m
                    .mem(va, len)
                    .ok_or(format!("{n:?}: nothing is loaded at {va:#x}, {len} bytes"))?;
                let (wr, ex) = (flags & 2 != 0, flags & 1 != 0);
                if len > 0 {
                    match at {
                        At::Fn(..) => ensure!(ex && !wr, "function {n:?} is in a segment with flags {flags}"),
                        At::Data(_, i) => {
                            let y = &x.datas[i];
                            let w = y.writable();
                            ensure!(w == wr, "data {n:?} is in a segment with flags {flags}, writable {w}");
                            ensure!(!w || !ex, "writable data {n:?} is in a segment with flags {flags}");
                        }
                        _ => {}
                    }
                }
                merged &= !d.is_section();
                b
            };
            if !merged && !debug && len > 0 {
                spans.push((va, va + len, n.to_string()));
            }
            // expected content
            let mut want = bytes;
            want.resize(len as usize, 0);
            let mut skip: BTreeSet<usize> = BTreeSet::new();
            for (o, to, rel) in &links {
                let td = x
                    .d(to)
                    .or_else(|| {
                        x.imports
                            .iter()
                            .find(|i| i.0 == *to)
                            .map(|i| if i.1 { D::FnImport } else { D::DataImport })
                    })
                    .ok_or("harness: link to nothing")?;
                let (typ, add) = crate::gen::elf_rel(d, td, *rel, true).ok_or("harness: link")?;
                let t = resolve(us, &w, u, to);
                let s = match (adr.get(&t), t) {
                    (Some(s), _) => *s,
                    (None, At::Data(h, i)) if us[h].datas[i].body.mem_len() == 0 => {
                        skip.extend(*o as usize..*o as usize + 8);
                        continue;
                    }
                    _ => return Err(format!("{to:?} is not in the linked program")),
                };
                let o = *o as usize;
                let p = va + o as u64;
                let field = |n: usize| got.get(o..o + n).ok_or("harness: field");
                if to == ".debug_str" {
                    // an offset into the merged strings
                    let n = if typ == 1 { 8 } else { 4 };
                    let v = le(field(n)?);
                    let s = m.sec(".debug_str").unwrap();
                    let have = m.cstr(s.off + v);
                    let b = x.datas.iter().find(|y| y.name == ".debug_str").unwrap().body.bytes();
                    let b = &b[add as usize..];
                    let e = b.iter().position(|x| *x == 0).unwrap_or(b.len());
                    let want = String::from_utf8_lossy(&b[..e]).into_owned();
                    ensure!(
                        v < s.size && have == want,
                        "{n:?} of {to:?} at {o:#x} names {have:?} instead of {want:?}"
                    );
                    skip.extend(o..o + n);
                    continue;
                }
                match kinds.iter().find(|k| k.0 == typ) {
                    Some((_, n, pc)) => {
                        let v = s.wrapping_add(add as u64).wrapping_sub(if *pc { p } else { 0 });
                        m.put(want.get_mut(o..o + n).ok_or("harness: field")?, v)
                    }
                    None if typ == 9 => {
                        // a load from the table, or what a linker makes of one
                        let op = got.get(o.wrapping_sub(3)..o).ok_or("harness: got")?;
                        let v = le(field(4)?) as u32;
                        let rip = p.wrapping_add(4).wrapping_add(v as i32 as i64 as u64);
                        let have = match op {
                            [0x48, 0x8b, 0x05] => m.mem(rip, 8).map(|x| le(&x.0)),
                            [0x48, 0x8d, 0x05] => Some(rip),
                            [0x48, 0xc7, 0xc0] => Some(v as i32 as i64 as u64),
                            _ => None,
                        };
                        ensure!(
                            have == Some(s),
                            "{n:?} at {o:#x}: the table entry for {to:?} holds {have:x?} instead of {s:#x}"
                        );
                        skip.extend(o - 3..o + 4);
                    }
                    _ => return Err("harness: type".into()),
                }
            }
            if let Some(i) = (0..want.len()).find(|i| want[*i] != got[*i] && !skip.contains(i)) {
                let l = links.iter().find(|l| (l.0 as usize..l.0 as usize + 8).contains(&i));
                return Err(format!(
                    "byte {i:#x} of {n:?} is {:#x} in the linked program instead of {:#x} (near link {l:?})",
                    got[i], want[i]
                ));
            }
            // custom symbols
            if let At::Data(_, i) = at {
                for (s, off) in &x.datas[i].syms {
                    if debug {
                        continue;
                    }
                    let c: Vec<u64> = m.syms.iter().filter(|y| y.name == *s).map(|y| y.value).collect();
                    ensure!(
                        c == [va + off],
                        "custom symbol {s:?} is at {c:x?} in the linked program instead of {:#x}",
                        va + off
                    );
                }
            }
        }
    }
    spans.sort();
    for p in spans.windows(2) {
        ensure!(
            p[0].1 <= p[1].0,
            "{:?} and {:?} overlap in the linked program",
            p[0].2,
            p[1].2
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ linking and running

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Static,
    /// imports from a shared library
    Dyn,
    Pie,
    /// the units are a shared library
    Shared,
}
pub struct Built {
    pub objs: Vec<Vec<u8>>,
}
pub fn objects(us: &[Unit], t: &Tape) -> Result<Built, String> {
    let mut mix = Mix::of(&t.hdr);
    let mut objs = vec![];
    for u in us {
        let c = u.case(X64, &mut mix);
        let mut a = c.artifact();
        for op in &c.ops {
            if let Err(e) = call(&mut a, op)? {
                return Err(format!("{op:?} refused: {e}"));
            }
        }
        objs.push(emit_as(&a, ELF).bytes("ELF emission of a complete artifact")?);
    }
    Ok(Built { objs })
}
pub struct Dir(pub PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn link_cmd(ld: &str, mode: Mode, drv: &Path, dir: &Path, n: usize) -> Vec<Command> {
    let units: Vec<PathBuf> = (0..n).map(|i| dir.join(format!("{i}.o"))).collect();
    let exe = dir.join("exe");
    let dynamic = |c: &mut Command| {
        c.args(["-z", "now", "-dynamic-linker", "/lib64/ld-linux-x86-64.so.2", "-rpath"])
            .arg(drv)
            .arg("-rpath")
            .arg(dir);
    };
    let mut v = vec![];
    let mut c = Command::new(ld);
    match mode {
        Mode::Static => {
            c.arg("-static").arg("-o").arg(exe).arg(drv.join("start.o"));
            // before or after
            if n % 2 == 0 {
                c.arg(drv.join("ext.o")).args(units);
            } else {
                c.args(units).arg(drv.join("ext.o"));
            }
            v.push(c);
        }
        Mode::Dyn | Mode::Pie => {
            if mode == Mode::Pie {
                c.arg("-pie");
            }
            dynamic(&mut c);
            c.arg("-o")
                .arg(exe)
                .arg(drv.join("start.o"))
                .args(units)
                .arg(drv.join("libext.so"));
            v.push(c);
        }
        Mode::Shared => {
            c.args(["-shared", "-soname", "libu.so", "-z", "now", "-o"])
                .arg(dir.join("libu.so"))
                .args(units)
                .arg(drv.join("libext.so"));
            v.push(c);
            let mut c = Command::new(ld);
            dynamic(&mut c);
            c.arg("-o")
                .arg(exe)
                .arg(drv.join("start.o"))
                .arg(dir.join("libu.so"))
                .arg(drv.join("libext.so"));
            v.push(c);
        }
    }
    for c in v.iter_mut() {
        c.env("LC_ALL", "C");
    }
    v
}
/// What happens to objects on the way to the program
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Way {
    Plain,
    /// linked into another object by this linker first
    Again(usize),
    /// unreferenced sections are left out
    Collected,
    /// equal sections are folded
    Folded,
    /// debug information is removed first, or what is not needed for linking, by GNU or LLVM tools
    Stripped(usize),
    /// copied by GNU or LLVM objcopy
    Copied(usize),
}
fn pick_way(t: &Tape) -> Way {
    match t.hdr[3] as usize * 16 >> 16 {
        0..=5 => Way::Plain,
        6..=8 => Way::Again(t.hdr[3] as usize % 3),
        9..=10 => Way::Collected,
        11 => Way::Folded,
        12..=13 => Way::Stripped(t.hdr[3] as usize % 4),
        _ => Way::Copied(t.hdr[3] as usize % 2),
    }
}
const COPY: [&str; 2] = ["/usr/bin/objcopy", "/usr/bin/llvm-objcopy-18"];
/// The command that turns object i into another one
fn prepare(way: Way, dir: &Path, i: usize) -> Option<Command> {
    let from = dir.join(format!("{i}.orig.o"));
    let to = dir.join(format!("{i}.o"));
    let mut c;
    match way {
        Way::Plain | Way::Collected | Way::Folded => return None,
        Way::Again(l) => {
            c = Command::new(LINKERS[l]);
            c.arg("-r").arg("-o").arg(&to).arg(&from);
        }
        Way::Stripped(k) => {
            c = Command::new(COPY[k % 2]);
            c.arg(["--strip-debug", "--strip-unneeded"][k / 2]).arg(&from).arg(&to);
        }
        Way::Copied(k) => {
            c = Command::new(COPY[k]);
            c.arg(&from).arg(&to);
        }
    }
    std::fs::rename(&to, &from).ok()?;
    c.env("LC_ALL", "C");
    Some(c)
}
pub enum Linked {
    Fine(Vec<u8>),
    Rejected(String),
    NoAnswer,
}
/// Links the objects; on success what running the program prints.
fn link_run(cx: &mut Cx, b: &Built, ld: &str, mode: Mode, way: Way, dir: &Path, exec: bool) -> Result<Linked, String> {
    let drv = driver(cx)?;
    for (i, o) in b.objs.iter().enumerate() {
        if let Err(e) = std::fs::write(dir.join(format!("{i}.o")), o) {
            return Err(format!("harness: {e}"));
        }
    }
    let err = dir.join("err");
    let mut cmds = link_cmd(ld, mode, &drv, dir, b.objs.len());
    match way {
        Way::Collected => cmds.iter_mut().for_each(|c| {
            c.arg("--gc-sections");
        }),
        Way::Folded if !ld.ends_with("bfd") => cmds.iter_mut().for_each(|c| {
            c.arg(if ld.ends_with("gold") {
                "--icf=safe"
            } else {
                "--icf=all"
            });
        }),
        _ => {}
    }
    if !exec {
        cmds.truncate(1);
    }
    for i in (0..b.objs.len()).rev() {
        cmds.splice(0..0, prepare(way, dir, i));
    }
    for mut c in cmds {
        match run(&mut c, &err, LIMIT) {
            Ran::Done(d) if d.ok => {}
            Ran::Done(d) => {
                return Ok(Linked::Rejected(format!(
                    "{ld} ({mode:?}, {way:?}): {}; {}",
                    d.status,
                    d.err.lines().take(4).collect::<Vec<_>>().join(" | ")
                )))
            }
            Ran::NoStart(e) => return Err(format!("harness: {ld}: {e}")),
            Ran::Late => return Ok(Linked::NoAnswer),
        }
    }
    if !exec {
        return Ok(Linked::Fine(vec![]));
    }
    match run(&mut Command::new(dir.join("exe")), &err, Duration::from_secs(30)) {
        Ran::Done(d) if d.ok && d.out.len() == 8 => Ok(Linked::Fine(d.out)),
        Ran::Done(d) => Err(format!(
            "the program linked by {ld} ({mode:?}, {way:?}) ended with {} after {} bytes of output; {}",
            d.status,
            d.out.len(),
            d.err
        )),
        Ran::NoStart(e) => Err(format!("harness: running a program: {e}")),
        Ran::Late => Err(format!("the program linked by {ld} ({mode:?}, {way:?}) does not end")),
    }
}
pub fn expected(us: &[Unit]) -> (u64, u64) {
    let mut i = Interp::new(us);
    i.run("entry");
    (i.acc, i.calls)
}
fn answer(us: &[Unit], out: &[u8], ld: &str, mode: Mode) -> Result<(), String> {
    let (want, _) = expected(us);
    let got = le(out);
    ensure!(
        got == want,
        "the program linked by {ld} ({mode:?}) computes {got:#x}; its definitions and links say {want:#x}"
    );
    Ok(())
}
pub fn classes(cx: &mut Cx, us: &[Unit], what: &str) {
    cx.class(what);
    let links: Vec<_> = us.iter().flat_map(|u| u.links()).collect();
    cx.class_if(links.iter().any(|l| l.3 != Rel::Auto), "has raw or debug link");
    let datas = || us.iter().flat_map(|u| u.datas.iter());
    cx.class_if(datas().any(|x| x.body.is_zero()), "has zero-init");
    cx.class_if(datas().any(|x| x.d.is_section()), "has custom section");
    cx.class_if(datas().any(|x| !x.ptrs.is_empty()), "has pointers in data");
    cx.class_if(datas().any(|x| matches!(x.d, D::Data { s: true, .. })), "has strings");
    cx.class_if(
        us.iter().any(|u| u.fns.iter().any(|f| f.d.scope() == Scope::Weak)),
        "has weak function",
    );
    cx.class_if(us.iter().any(|u| !u.imports.is_empty()), "has imports");
    let n = expected(us).1;
    cx.class(match n {
        0..=2 => "calls made: 1-2",
        3..=10 => "calls made: 3-10",
        _ => "calls made: 11+",
    });
}
fn pick_mode(t: &Tape) -> (Mode, bool) {
    // mode, position-independent code
    match t.hdr[0] as usize * 8 >> 16 {
        0..=2 => (Mode::Static, false),
        3 => (Mode::Static, true),
        4 => (Mode::Dyn, false),
        5 => (Mode::Dyn, true),
        6 => (Mode::Pie, true),
        _ => (Mode::Shared, true),
    }
}
fn pick_ld(t: &Tape) -> &'static str {
    LINKERS[t.hdr[1] as usize * 3 >> 16]
}
pub fn c12_units(t: &Tape) -> Vec<Unit> {
    let (mode, pic) = pick_mode(t);
    let cfg = Cfg {
        units: 1,
        pic,
        shared: mode == Mode::Shared,
        raw: t.hdr[2] % 4 != 0,
        shared_names: false,
        debug: true,
        secs: t.hdr[2] % 4 != 0,
        inplace: false,
    };
    units(t, cfg)
}
pub fn c12_show(t: &Tape) -> String {
    let (mode, pic) = pick_mode(t);
    format!(
        "{} {mode:?} pic {pic} {:?}\n{}",
        pick_ld(t),
        pick_way(t),
        show(&c12_units(t))
    )
}
pub fn c12(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let us = c12_units(t);
    let (mode, _) = pick_mode(t);
    let ld = pick_ld(t);
    let way = pick_way(t);
    let b = objects(&us, t)?;
    let dir = Dir(cx.tmp("link"));
    std::fs::create_dir_all(&dir.0).map_err(|e| format!("harness: {e}"))?;
    match link_run(cx, &b, ld, mode, way, &dir.0, true)? {
        Linked::Rejected(m) => return Err(format!("the linker rejects the object: {m}")),
        Linked::NoAnswer => cx.add("links without an answer", 1),
        Linked::Fine(out) => {
            if mode == Mode::Static && matches!(way, Way::Plain | Way::Again(_) | Way::Copied(_)) {
                let m = std::fs::read(dir.0.join("exe")).map_err(|e| format!("harness: {e}"))?;
                image(&us, &Img::parse(m)?, X86_64).map_err(|e| format!("{ld} ({mode:?}, {way:?}): {e}"))?;
            }
            answer(&us, &out, ld, mode).map_err(|e| format!("{way:?}: {e}"))?;
            cx.add("programs linked and run", 1);
        }
    }
    classes(cx, &us, &format!("{} {mode:?}", &ld[9..]));
    cx.class(match way {
        Way::Plain => "linked at once",
        Way::Again(_) => "linked into an object first",
        Way::Collected => "unreferenced sections left out",
        Way::Folded => "equal sections folded",
        Way::Stripped(_) => "stripped first",
        Way::Copied(_) => "copied by objcopy first",
    });
    if us[0].fns.len() >= 2 && us[0].links().len() >= 3 {
        cx.nontrivial(&us, || c12_show(t));
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

fn c25_mode(t: &Tape) -> (Mode, bool) {
    match t.hdr[0] as usize * 8 >> 16 {
        0..=3 => (Mode::Static, false),
        4 => (Mode::Pie, true),
        _ => (Mode::Shared, true),
    }
}
pub fn c25_units(t: &Tape) -> Vec<Unit> {
    let (mode, pic) = c25_mode(t);
    let cfg = Cfg {
        units: 2 + (t.hdr[3] as usize * 3 >> 16),
        pic,
        shared: mode == Mode::Shared,
        raw: t.hdr[2] % 4 == 0,
        shared_names: true,
        debug: false,
        secs: t.hdr[2] % 4 == 0,
        inplace: false,
    };
    let mut us = units(t, cfg);
    // marks: without contents, so that all there is to them is which of them is chosen
    if t.hdr[5] % 2 == 0 {
        for (i, u) in us.iter_mut().enumerate() {
            let b = t.hdr[5] >> (1 + 3 * i);
            let d = D::Data {
                scope: [Scope::Weak, Scope::Weak, Scope::Global, Scope::Local][b as usize & 3],
                vis: Vis::Default,
                w: b & 4 != 0,
                s: false,
                align: None,
            };
            let body = Body::Blob {
                len: 0,
                seed: 0,
                cstr: false,
            };
            u.datas.push(DataDef {
                name: "a mark".into(),
                d,
                body,
                ptrs: vec![],
                syms: vec![],
            });
        }
    }
    // most programs should link: make all but the first of several global definitions weak, and
    // drop what refers to nothing
    if t.hdr[4] % 8 != 0 {
        let mut seen = BTreeSet::new();
        for u in us.iter_mut() {
            let ds = u
                .fns
                .iter_mut()
                .map(|f| (&f.name, &mut f.d))
                .chain(u.datas.iter_mut().map(|x| (&x.name, &mut x.d)));
            for (n, d) in ds {
                if let D::Fn { scope, .. } | D::Data { scope, .. } = d {
                    if *scope == Scope::Global && !seen.insert(n.clone()) {
                        *scope = Scope::Weak
                    }
                }
            }
        }
        if cfg.shared {
            // direct references to what has become weak
            for u in us.iter_mut() {
                let weak: BTreeSet<String> = u
                    .datas
                    .iter()
                    .filter(|x| !x.d.is_section() && x.d.scope() == Scope::Weak)
                    .map(|x| x.name.clone())
                    .collect();
                for f in u.fns.iter_mut() {
                    f.steps.retain(|s| match s {
                        Step::ReadB { name, .. }
                        | Step::Read8 { name }
                        | Step::WriteB { name, .. }
                        | Step::CallPtr { via: name, .. }
                        | Step::ReadPtr { via: name, .. }
                        | Step::Align { name, .. }
                        | Step::RawB { name, .. } => !weak.contains(name),
                        _ => true,
                    })
                }
                let weakf: BTreeSet<String> = u
                    .fns
                    .iter()
                    .filter(|x| x.d.scope() == Scope::Weak)
                    .map(|x| x.name.clone())
                    .collect();
                for f in u.fns.iter_mut() {
                    f.steps.retain(
                        |s| !matches!(s, Step::Call { to, rel: Rel::Raw { reloc: 2, .. } } if weakf.contains(to)),
                    )
                }
            }
        }
        if t.hdr[4] % 8 != 1 {
            let none = unresolved(&us);
            for u in us.iter_mut() {
                for f in u.fns.iter_mut() {
                    f.steps.retain(|s| match s {
                        Step::Call { to, .. } | Step::GotCall { name: to } => !none.contains(to),
                        Step::ReadB { name, .. } | Step::WriteB { name, .. } | Step::GotB { name, .. } => {
                            !none.contains(name)
                        }
                        _ => true,
                    })
                }
            }
        }
    }
    us
}
pub fn c25_show(t: &Tape) -> String {
    let (mode, pic) = c25_mode(t);
    format!("{} {mode:?} pic {pic}\n{}", pick_ld(t), show(&c25_units(t)))
}
fn exports(us: &[Unit], m: &Img, what: &str) -> Result<usize, String> {
    let w = winners(us);
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut want: BTreeMap<String, u8> = BTreeMap::new();
    for (u, x) in us.iter().enumerate() {
        for (n, d) in x.defs() {
            names.insert(n.into());
            if w.get(n) == Some(&u) && !d.is_section() && d.scope() != Scope::Local {
                let v = match d {
                    D::Fn { vis, .. } | D::Data { vis, .. } => vis,
                    _ => Vis::Hidden,
                };
                match v {
                    Vis::Default => want.insert(n.into(), 0),
                    Vis::Protected => want.insert(n.into(), 3),
                    Vis::Hidden => None,
                };
            }
        }
        for y in &x.datas {
            names.extend(y.syms.iter().map(|s| s.0.clone()));
        }
    }
    let mut got: BTreeMap<String, u8> = BTreeMap::new();
    for y in &m.dynsyms {
        if y.shndx != 0 && names.contains(&y.name) {
            ensure!(
                got.insert(y.name.clone(), y.vis).is_none(),
                "{:?} is exported twice",
                y.name
            );
        }
    }
    for n in &names {
        let (g, w) = (got.get(n), want.get(n));
        ensure!(
            g == w,
            "{what}: {n:?} in the shared library: exported with visibility {g:?} instead of {w:?}"
        );
    }
    Ok(want.len())
}
pub fn c25(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let us = c25_units(t);
    let (mode, _) = c25_mode(t);
    let ld = pick_ld(t);
    let dup = duplicates(&us);
    let none = unresolved(&us);
    let b = objects(&us, t)?;
    let dir = Dir(cx.tmp("link"));
    std::fs::create_dir_all(&dir.0).map_err(|e| format!("harness: {e}"))?;
    let reject = !dup.is_empty() || (!none.is_empty() && mode != Mode::Shared);
    // a program is not linked to a library that lacks something, used or not
    let w = winners(&us);
    let lacks = (0..us.len()).any(|u| us[u].imports.iter().any(|i| resolve(&us, &w, u, &i.0) == At::None));
    let exec = !reject && none.is_empty() && !(lacks && mode == Mode::Shared);
    let what = format!("{} {mode:?}", &ld[9..]);
    match link_run(cx, &b, ld, mode, Way::Plain, &dir.0, exec)? {
        Linked::NoAnswer => cx.add("links without an answer", 1),
        Linked::Rejected(m) => {
            ensure!(reject, "the linker rejects the objects: {m}");
            cx.class(if dup.is_empty() {
                "rejected: undefined"
            } else {
                "rejected: several global definitions"
            });
        }
        Linked::Fine(out) => {
            ensure!(
                dup.is_empty(),
                "{what}: several global definitions of {dup:?} are accepted"
            );
            ensure!(
                !reject,
                "{what}: references to {none:?}, which no unit exports, are accepted"
            );
            if mode == Mode::Static {
                let m = std::fs::read(dir.0.join("exe")).map_err(|e| format!("harness: {e}"))?;
                image(&us, &Img::parse(m)?, X86_64).map_err(|e| format!("{what}: {e}"))?;
            }
            if mode == Mode::Shared {
                let m = std::fs::read(dir.0.join("libu.so")).map_err(|e| format!("harness: {e}"))?;
                let n = exports(&us, &Img::parse(m)?, &what)?;
                cx.add("exported symbols checked", n as u64);
            }
            if exec {
                answer(&us, &out, ld, mode)?;
                classes(cx, &us, &what);
                cx.add("programs linked and run", 1);
            }
        }
    }
    let shared = |n: &str| n.starts_with("sf") || n.starts_with("sd");
    let local_twice = us
        .iter()
        .flat_map(|u| u.defs())
        .filter(|(n, d)| shared(n) && !d.is_section() && d.scope() == Scope::Local)
        .count();
    cx.class_if(local_twice > 1, "has same-named locals");
    let weak_over = us.iter().enumerate().any(|(i, u)| {
        u.defs()
            .any(|(n, d)| !d.is_section() && d.scope() == Scope::Weak && winners(&us)[n] != i)
    });
    cx.class_if(weak_over, "has an overridden weak definition");
    if us.iter().filter(|u| u.fns.len() + u.datas.len() > 1).count() > 1 {
        cx.nontrivial(&us, || c25_show(t));
    }
    Ok(())
}
