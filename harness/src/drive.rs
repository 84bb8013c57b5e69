//! Running the code under test with panics contained, and the per-run statistics.
use crate::model::Program;
use crate::spec::*;
use faerie::{Artifact, ArtifactError};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use target_lexicon::BinaryFormat;

thread_local! {
    static IN_FAERIE: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<Option<String>> = const { Cell::new(None) };
}
pub fn in_faerie() -> bool {
    IN_FAERIE.with(|c| c.get())
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let m = format!("{i}").replace('\n', " ");
        LAST.with(|l| l.set(Some(m)));
        if std::env::var_os("VERIF_TRACE").is_some() && !in_faerie() {
            old(i)
        }
    }));
}
pub fn take_panic() -> Option<String> {
    IN_FAERIE.with(|c| c.set(false));
    LAST.with(|l| l.take())
}
/// Call into the code under test; a panic there is a value, not the end of the run.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_FAERIE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_FAERIE.with(|c| c.set(false));
    r.map_err(|_| LAST.with(|l| l.take()).unwrap_or_else(|| "panic".into()))
}

pub const ELF: BinaryFormat = BinaryFormat::Elf;
pub const MACHO: BinaryFormat = BinaryFormat::Macho;

#[derive(Debug)]
pub enum Out {
    Bytes(Vec<u8>),
    Err(ArtifactError),
    Panic(String),
}
impl Out {
    pub fn bytes(self, what: &str) -> Result<Vec<u8>, String> {
        match self {
            Out::Bytes(b) => Ok(b),
            Out::Err(e) => Err(format!("{what} refused: {e}")),
            Out::Panic(m) => Err(format!("{what} panicked: {m}")),
        }
    }
    /// comparable text of the outcome
    pub fn key(&self) -> String {
        match self {
            Out::Bytes(b) => format!("{} bytes, hash {:x}", b.len(), hash_of(b)),
            Out::Err(e) => format!("error {e:?}"),
            Out::Panic(_) => "panic".into(),
        }
    }
    pub fn refused(&self) -> bool {
        !matches!(self, Out::Bytes(_))
    }
}
fn out(r: Result<Result<Vec<u8>, ArtifactError>, String>) -> Out {
    match r {
        Ok(Ok(b)) => Out::Bytes(b),
        Ok(Err(e)) => Out::Err(e),
        Err(m) => Out::Panic(m),
    }
}
pub fn emit_as(a: &Artifact, f: BinaryFormat) -> Out {
    out(guard(|| a.emit_as(f)))
}
pub fn emit(a: &Artifact) -> Out {
    out(guard(|| a.emit()))
}
pub fn call(a: &mut Artifact, op: &Op) -> Result<Result<(), ArtifactError>, String> {
    guard(|| apply(a, op)).map_err(|m| format!("call panicked: {m} in {op:?}"))
}
/// Replay a history, ignoring outcomes but not panics.
pub fn build(c: &Case) -> Result<Artifact, String> {
    build_ops(c, &c.ops)
}
pub fn build_ops(c: &Case, ops: &[Op]) -> Result<Artifact, String> {
    let mut a = c.artifact();
    for op in ops {
        let _ = call(&mut a, op)?;
    }
    Ok(a)
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Deterministic stream of choices derived from the tape (for re-orderings and the like)
pub struct Mix(u64);
impl Mix {
    pub fn new(seed: u64) -> Self {
        Mix(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn of(hdr: &crate::tape::Row) -> Self {
        let mut s = 0u64;
        for x in &hdr[8..16] {
            s = s.rotate_left(11) ^ *x as u64;
        }
        Mix::new(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ z >> 31
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, u64>,
}
/// What a check sees of the run it is part of.
pub struct Cx {
    pub st: Stats,
    /// false while shrinking or replaying
    pub counting: bool,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub scratch: std::path::PathBuf,
    /// objects kept for the external readers
    pub keep: Vec<(crate::tape::Tape, Vec<u8>, &'static str)>,
    pub serial: u64,
}
impl Cx {
    pub fn class(&mut self, c: &str) {
        if self.counting {
            *self.st.classes.entry(c.to_string()).or_insert(0) += 1;
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &str) {
        if cond {
            self.class(c)
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if self.counting {
            *self.st.extra.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn nontrivial<T: Hash>(&mut self, t: &T, sample: impl FnOnce() -> String) {
        if self.counting && self.st.distinct.insert(hash_of(t)) && self.st.samples.len() < 2 {
            let mut s = sample();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.st.samples.push(s);
        }
    }
    pub fn classify(&mut self, p: &Program) {
        if !self.counting {
            return;
        }
        let n = p.defs.len();
        self.class(match n {
            0 => "defs:0",
            1..=3 => "defs:1-3",
            4..=12 => "defs:4-12",
            _ => "defs:13+",
        });
        self.class_if(p.defs.iter().any(|d| d.body.is_zero()), "has zero-init");
        self.class_if(p.defs.iter().any(|d| d.d.is_section()), "has custom section");
        self.class_if(p.defs.iter().any(|d| !d.syms.is_empty()), "has custom symbol");
        self.class_if(
            p.defs.iter().any(|d| matches!(d.d, D::Data { s: true, .. })),
            "has string data",
        );
        self.class_if(p.defs.iter().any(|d| d.d.scope() == Scope::Weak), "has weak");
        self.class_if(
            p.defs.iter().any(|d| d.d.scope() == Scope::Local && !d.d.is_section()),
            "has local",
        );
        self.class_if(
            p.defs.iter().any(|d| d.d.align().map_or(false, |a| a > 16)),
            "has large alignment",
        );
        self.class_if(p.defs.iter().any(|d| d.body.mem_len() == 0), "has empty definition");
        self.class_if(p.defs.iter().any(|d| d.body.mem_len() > 4096), "has >4k definition");
        self.class_if(!p.imports.is_empty(), "has import");
        self.class_if(!p.links.is_empty(), "has link");
        self.class_if(p.links.len() > 5, "has >5 links");
        let most = p.defs.iter().map(|d| d.syms.len()).max().unwrap_or(0);
        self.class_if(
            n.max(p.imports.len()).max(p.links.len()).max(most) > 0xfff0,
            "more than 65,520 definitions, imports, links or custom symbols",
        );
        self.class_if(
            p.defs.iter().any(|d| !d.body.is_zero() && d.body.mem_len() > 0xffff),
            "more than 65,535 bytes of one content",
        );
        self.class_if(p.defs.iter().any(|d| d.name.len() > 0xffff), "name over 65,535 bytes");
        self.class_if(p.links.iter().any(|l| l.rel == Rel::Auto), "has auto link");
        self.class_if(p.links.iter().any(|l| matches!(l.rel, Rel::Raw { .. })), "has raw link");
        self.class_if(
            p.links.iter().any(|l| matches!(l.rel, Rel::Debug { .. })),
            "has debug link",
        );
        self.class_if(p.links.iter().any(|l| l.from == l.to), "has self link");
    }
    pub fn tmp(&mut self, ext: &str) -> std::path::PathBuf {
        self.serial += 1;
        self.scratch.join(format!("s{}_{}.{ext}", self.shard, self.serial))
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 60 {
        let h: String = s.chars().take(24).collect();
        format!("{h}...({} bytes)", s.len())
    } else {
        s.to_string()
    }
}
pub fn show_case(c: &Case) -> String {
    use std::fmt::Write;
    let mut s = format!("target {} name {:?}\n", c.target, c.name);
    for op in &c.ops {
        let _ = match op {
            Op::Declare { name, d, style, api } => {
                writeln!(s, "declare {:?} {d:?} (style {style}, api {api})", short(name))
            }
            Op::Bulk { items } => {
                writeln!(
                    s,
                    "declarations [{}]",
                    items
                        .iter()
                        .map(|(n, d)| format!("{:?}: {d:?}", short(n)))
                        .collect::<Vec<_>>()
                        .join(", ")
                )
            }
            Op::DeclareWith { name, d, style, body } => {
                writeln!(s, "declare_with {:?} {d:?} (style {style}) {body:?}", short(name))
            }
            Op::Define { name, body, syms, api } => {
                writeln!(
                    s,
                    "define {:?} {body:?} symbols {:?} (api {api})",
                    short(name),
                    syms.iter().map(|x| (short(&x.0), x.1)).collect::<Vec<_>>()
                )
            }
            Op::Link { from, to, at, rel } => {
                writeln!(s, "link {:?} -> {:?} at {at:#x} {rel:?}", short(from), short(to))
            }
        };
    }
    s
}
