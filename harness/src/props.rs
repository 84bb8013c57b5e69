//! The properties decided on the emitted bytes and on the API: one check function each.
use crate::drive::*;
use crate::elf::{self, ensure};
use crate::expect::*;
use crate::gen::{self, decode, mach_rel, Gen, GenCfg, MRel, Names, Targets};
use crate::mach;
use crate::model::*;
use crate::spec::*;
use crate::tape::*;
use faerie::{Artifact, ArtifactError};
use std::collections::{BTreeMap, BTreeSet};
use target_lexicon::BinaryFormat;

pub type Check = fn(&Tape, &mut Cx) -> Result<(), String>;

pub fn tgt_of(c: &Case) -> &'static Tgt {
    tgt(c.target)
}

fn elf_bytes(c: &Case) -> Result<(Artifact, Vec<u8>), String> {
    let a = build(c)?;
    let b = emit_as(&a, ELF).bytes("ELF emission of a complete artifact")?;
    Ok((a, b))
}
fn mach_bytes(c: &Case) -> Result<(Artifact, Vec<u8>), String> {
    let a = build(c)?;
    let b = emit_as(&a, MACHO).bytes("Mach-O emission of a complete artifact")?;
    Ok((a, b))
}
fn rich(p: &Program) -> bool {
    p.defs.len() >= 2
}

// ------------------------------------------------------------------ C01

fn lists_match(a: &Artifact, m: &Model) -> Result<(), String> {
    let imps: Vec<(String, D)> = guard(|| {
        a.imports()
            .map(|(n, k)| {
                (
                    n.to_string(),
                    match k {
                        faerie::ImportKind::Function => D::FnImport,
                        faerie::ImportKind::Data => D::DataImport,
                    },
                )
            })
            .collect()
    })
    .map_err(|m| format!("imports() panicked: {m}"))?;
    let mut got = imps.clone();
    got.sort();
    let mut want = m.imports();
    want.sort();
    ensure!(got == want, "imports are {got:?}, the accepted calls give {want:?}");
    let undef = guard(|| a.undefined_symbols()).map_err(|m| format!("undefined_symbols() panicked: {m}"))?;
    ensure!(
        undef == m.undefined(),
        "undefined symbols are {undef:?}, the accepted calls give {:?}",
        m.undefined()
    );
    Ok(())
}

pub fn c01_case(t: &Tape) -> Gen {
    if t.hdr[15] >= 0x5000 {
        gen::chaos(t)
    } else {
        let mut g = decode(
            t,
            &GenCfg {
                errors: 14,
                complete: false,
                targets: Targets::All,
                ..GenCfg::default()
            },
        );
        if g.case.ops.len() > 2000 {
            // calls of every outcome on names anywhere in a long history
            let mut mix = Mix::of(&t.hdr);
            for i in 0..60 {
                let mut name = || match mix.below(8) {
                    0 => format!("ghost{i}"),
                    _ => g.model.order[mix.below(g.model.order.len())].clone(),
                };
                let (name, to) = (name(), name());
                let op = match mix.below(4) {
                    0 => Op::Declare {
                        name,
                        d: if mix.below(2) == 0 { D::FnImport } else { D::DataImport },
                        style: 0,
                        api: 0,
                    },
                    1 => Op::Define {
                        name,
                        body: Body::Zero(3),
                        syms: vec![],
                        api: 0,
                    },
                    2 => Op::Define {
                        name,
                        body: Body::Raw(vec![1, 2, 3]),
                        syms: vec![],
                        api: 0,
                    },
                    _ => Op::Link {
                        from: name,
                        to,
                        at: 0,
                        rel: Rel::Auto,
                    },
                };
                g.model.apply(&op);
                g.case.ops.push(op);
            }
        }
        g
    }
}
pub fn c01(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c01_case(t);
    let mut a = g.case.artifact();
    let mut m = Model::default();
    let (mut ok, mut bad) = (0, 0);
    for (i, op) in g.case.ops.iter().enumerate() {
        let exp = m.apply(op);
        let r = call(&mut a, op)?;
        if r.is_ok() {
            ok += 1
        } else {
            bad += 1
        }
        outcome_ok(&r, &exp).map_err(|e| format!("call {i} {op:?}: {e}"))?;
        if i % (1 + g.case.ops.len() / 1000 * 30) == 0 || i + 1 == g.case.ops.len() {
            lists_match(&a, &m).map_err(|e| format!("after call {i} {op:?}: {e}"))?;
        }
        if cx.counting {
            for e in &exp {
                let n = format!("{e:?}");
                cx.class(&format!("outcome {}", n.split(['(', ' ', '{']).next().unwrap_or("")));
            }
        }
    }
    if ok > 0 && bad > 0 && ok + bad >= 4 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

pub fn c02_case(t: &Tape) -> Gen {
    if t.hdr[15] >= 0xb000 {
        let mut g = gen::chaos(t);
        // a patch outside its source lies, in one object, wherever the next definition happens
        // to be: what it denotes is not a matter of the accepted calls
        let lens: BTreeMap<String, u64> = g
            .model
            .program()
            .defs
            .iter()
            .map(|d| (d.name.clone(), d.body.mem_len()))
            .collect();
        g.case.ops.retain(|o| match o {
            Op::Link { from, at, .. } => lens.get(from).map_or(true, |l| at + 8 <= *l),
            _ => true,
        });
        g.model = Model::default();
        for o in &g.case.ops {
            g.model.apply(o);
        }
        g
    } else {
        decode(
            t,
            &GenCfg {
                errors: 20,
                names: Names::Rich,
                giant: false,
                odd: true,
                ..GenCfg::default()
            },
        )
    }
}
/// The accepted parts of the history.
fn accepted(c: &Case) -> (Vec<Op>, u32) {
    let mut m = Model::default();
    let mut out = vec![];
    let mut rejected = 0;
    for op in &c.ops {
        let before = m.clone();
        let e = m.apply(op);
        if e.contains(&Exp::Ok) {
            out.push(op.clone());
            continue;
        }
        rejected += 1;
        match op {
            Op::Bulk { items } => {
                let mut b = before;
                for (n, d) in items {
                    let o = Op::Declare {
                        name: n.clone(),
                        d: *d,
                        style: 0,
                        api: 0,
                    };
                    if b.apply(&o).contains(&Exp::Ok) {
                        out.push(o)
                    } else {
                        break;
                    }
                }
            }
            Op::DeclareWith { name, d, style, .. } => {
                let mut b = before;
                let o = Op::Declare {
                    name: name.clone(),
                    d: *d,
                    style: *style,
                    api: 0,
                };
                if b.apply(&o).contains(&Exp::Ok) {
                    out.push(o)
                }
            }
            _ => {}
        }
    }
    (out, rejected)
}
pub fn c02(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c02_case(t);
    let (clean, rejected) = accepted(&g.case);
    let mut a = g.case.artifact();
    // after every rejected call, everything observable is as before it
    let mut m = Model::default();
    for (i, op) in g.case.ops.iter().enumerate() {
        let e = m.apply(op);
        let r = call(&mut a, op)?;
        ensure!(
            r.is_ok() == e.contains(&Exp::Ok),
            "call {i} {op:?} returned {r:?}, the rules allow {e:?}"
        );
        if r.is_err() {
            lists_match(&a, &m).map_err(|x| format!("after rejected call {i} {op:?}: {x}"))?;
        }
    }
    let b = build_ops(&g.case, &clean)?;
    lists_match(&b, &m)?;
    // the same later calls have the same outcomes
    let names: Vec<String> = m
        .order
        .iter()
        .cloned()
        .chain(["ghost0".into(), "after0".into(), "cs".into()])
        .collect();
    for n in &names {
        for op in [
            Op::Define {
                name: n.clone(),
                body: Body::Blob {
                    len: 3,
                    seed: 1,
                    cstr: false,
                },
                syms: vec![],
                api: 0,
            },
            Op::Define {
                name: n.clone(),
                body: Body::Zero(3),
                syms: vec![],
                api: 0,
            },
            Op::Declare {
                name: n.clone(),
                d: D::FnImport,
                style: 0,
                api: 0,
            },
            Op::Declare {
                name: n.clone(),
                d: D::Data {
                    scope: Scope::Local,
                    vis: Vis::Default,
                    w: false,
                    s: false,
                    align: None,
                },
                style: 0,
                api: 0,
            },
            Op::Link {
                from: n.clone(),
                to: n.clone(),
                at: 0,
                rel: Rel::Auto,
            },
        ] {
            let x = call(&mut a.clone(), &op)?;
            let y = call(&mut b.clone(), &op)?;
            let want = m.clone().apply(&op);
            outcome_ok(&x, &want).map_err(|e| format!("later call {op:?} after the history: {e}"))?;
            outcome_ok(&y, &want).map_err(|e| format!("later call {op:?} after the accepted calls: {e}"))?;
        }
    }
    let p = m.program();
    for f in [ELF, MACHO] {
        let (x, y) = (emit_as(&a, f), emit_as(&b, f));
        match (x, y) {
            (Out::Bytes(x), Out::Bytes(y)) => {
                same_program(f, &p, &x, &y).map_err(|e| format!("with rejected calls / without them, {f:?}: {e}"))?
            }
            (x, y) => {
                ensure!(
                    x.refused() && y.refused(),
                    "{f:?}: with rejected calls: {}, without: {}",
                    x.key(),
                    y.key()
                );
                if let (Out::Err(x), Out::Err(y)) = (&x, &y) {
                    ensure!(format!("{x:?}") == format!("{y:?}"), "{f:?}: {x:?} and {y:?}");
                }
            }
        }
    }
    cx.classify(&p);
    cx.add("rejected calls", rejected as u64);
    if rejected > 0 && !p.defs.is_empty() {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
fn canon(f: BinaryFormat, p: &Program, b: &[u8]) -> Result<Canon, String> {
    if f == ELF {
        canon_elf(p, &elf::parse(b)?)
    } else {
        canon_mach(p, &mach::parse(b)?)
    }
}
fn same_program(f: BinaryFormat, p: &Program, x: &[u8], y: &[u8]) -> Result<(), String> {
    // chaotic histories may use one name as a custom symbol and more; what cannot be located in
    // either object is not compared
    match (canon(f, p, x), canon(f, p, y)) {
        (Ok(x), Ok(y)) => canon_diff(&x, &y),
        (Err(x), Err(y)) if x == y => Ok(()),
        (x, y) => Err(format!("{:?} / {:?}", x.err(), y.err())),
    }
}

// ------------------------------------------------------------------ C03

pub fn c03_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            odd: true,
            ..GenCfg::default()
        },
    )
}
/// Another history for the same program.
pub fn reorder(c: &Case, m: &Model, mix: &mut Mix) -> Vec<Op> {
    let p = m.program();
    let mut todo_import: BTreeSet<String> = BTreeSet::new();
    let mut undeclared: Vec<(String, D)> = m.order.iter().map(|n| (n.clone(), m.decls[n].d)).collect();
    let mut undefined: Vec<&PDef> = p.defs.iter().collect();
    let mut links: BTreeMap<&str, Vec<&MLink>> = BTreeMap::new();
    for l in &p.links {
        links.entry(&l.from).or_default().push(l);
    }
    for v in links.values_mut() {
        v.reverse();
    }
    let mut s = Model::default();
    let mut out: Vec<Op> = vec![];
    let bias = mix.below(3);
    if c.ops.len() > 3000 {
        // too many for the careful way: all declarations, then definitions among the links
        while !undeclared.is_empty() {
            let (name, d) = undeclared.swap_remove(mix.below(undeclared.len()));
            out.push(Op::Declare {
                name,
                d,
                style: 0,
                api: 0,
            });
        }
        let mut rest = p.links.iter().rev().collect::<Vec<_>>();
        while !undefined.is_empty() || !rest.is_empty() {
            if mix.below(undefined.len() + rest.len()) < undefined.len() {
                let d = undefined.swap_remove(mix.below(undefined.len()));
                out.push(Op::Define {
                    name: d.name.clone(),
                    body: d.body.clone(),
                    syms: d.syms.clone(),
                    api: mix.below(3) as u8,
                });
            } else {
                let l = rest.pop().unwrap();
                out.push(Op::Link {
                    from: l.from.clone(),
                    to: l.to.clone(),
                    at: l.at,
                    rel: l.rel,
                });
            }
        }
        return out;
    }
    let mut guard = 0;
    while !undeclared.is_empty()
        || !undefined.is_empty()
        || links.values().any(|v| !v.is_empty())
        || !todo_import.is_empty()
    {
        guard += 1;
        assert!(guard < 200_000, "reorder does not finish");
        let k = mix.below(match bias {
            0 => 10,
            1 => 14,
            _ => 20,
        });
        let op = match k {
            0..=2 => {
                if undeclared.is_empty() {
                    continue;
                }
                let i = mix.below(undeclared.len());
                let (n, d) = undeclared.swap_remove(i);
                let first = match d {
                    D::Fn { .. } => Some(D::FnImport),
                    D::Data { .. } => Some(D::DataImport),
                    _ => None,
                };
                if let (Some(f), true) = (first, mix.below(3) == 0) {
                    todo_import.insert(n.clone());
                    Op::Declare {
                        name: n,
                        d: f,
                        style: 0,
                        api: mix.below(2) as u8,
                    }
                } else {
                    Op::Declare {
                        name: n,
                        d,
                        style: mix.below(16) as u8,
                        api: mix.below(3) as u8,
                    }
                }
            }
            3 => {
                // upgrade
                let v: Vec<&String> = todo_import.iter().collect();
                if v.is_empty() {
                    continue;
                }
                let n = v[mix.below(v.len())].clone();
                todo_import.remove(&n);
                let d = m.decls[&n].d;
                Op::Declare {
                    name: n,
                    d,
                    style: mix.below(16) as u8,
                    api: 0,
                }
            }
            4 | 5 | 6 => {
                if undefined.is_empty() {
                    continue;
                }
                let i = mix.below(undefined.len());
                let d = undefined[i];
                if s.decls.get(&d.name).map_or(true, |x| x.d.is_import()) {
                    continue;
                }
                undefined.swap_remove(i);
                Op::Define {
                    name: d.name.clone(),
                    body: d.body.clone(),
                    syms: d.syms.clone(),
                    api: mix.below(3) as u8,
                }
            }
            7 => {
                // redundant redeclaration
                if s.order.is_empty() {
                    continue;
                }
                let n = s.order[mix.below(s.order.len())].clone();
                let d = match s.decls[&n].d {
                    D::Fn { .. } if mix.below(2) == 0 => D::FnImport,
                    D::Data { .. } if mix.below(2) == 0 => D::DataImport,
                    d => d,
                };
                if out.len() > 4000 {
                    continue;
                }
                Op::Declare {
                    name: n,
                    d,
                    style: mix.below(16) as u8,
                    api: 0,
                }
            }
            _ => {
                let cand: Vec<&str> = links
                    .iter()
                    .filter(|(f, v)| {
                        v.last().map_or(false, |l| s.decls.contains_key(&l.to))
                            && s.decls.get(**f).map_or(false, |x| !x.d.is_import())
                    })
                    .map(|x| *x.0)
                    .collect();
                if cand.is_empty() {
                    continue;
                }
                let l = links.get_mut(cand[mix.below(cand.len())]).unwrap().pop().unwrap();
                Op::Link {
                    from: l.from.clone(),
                    to: l.to.clone(),
                    at: l.at,
                    rel: l.rel,
                }
            }
        };
        let e = s.apply(&op);
        assert!(e.contains(&Exp::Ok), "reorder made a rejected call {op:?}: {e:?}");
        out.push(op);
    }
    out
}
pub fn c03(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c03_case(t);
    let p = g.model.program();
    let a = build(&g.case)?;
    let mut mix = Mix::of(&t.hdr);
    for round in 0..2 {
        let ops = reorder(&g.case, &g.model, &mut mix);
        let b = build_ops(&g.case, &ops)?;
        for f in [ELF, MACHO] {
            let x = emit_as(&a, f).bytes("emission")?;
            let y = emit_as(&b, f).bytes("emission after reordered calls")?;
            let (x, y) = (canon(f, &p, &x)?, canon(f, &p, &y)?);
            canon_diff(&x, &y).map_err(|e| {
                let c2 = Case {
                    ops: ops.clone(),
                    ..g.case.clone()
                };
                format!("{f:?}, order {round}: {e}\nthe other history:\n{}", show_case(&c2))
            })?;
        }
        // both are right about the final declarations, not merely equal
        let y = emit_as(&b, ELF).bytes("emission")?;
        let e = elf::parse(&y)?;
        elf_links(&p, &e, &elf_locate(&p, &e)?, tgt_of(&g.case).big)?;
    }
    cx.classify(&p);
    if rich(&p) && !p.links.is_empty() {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

pub fn c04_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            targets: Targets::Both,
            errors: 2,
            odd: true,
            ..GenCfg::default()
        },
    )
}
/// A logger that formats everything it is given and keeps nothing
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Sink;
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::Write::write_fmt(&mut Sink, *r.args());
    }
    fn flush(&self) {}
}
/// Whether anything is logged is one setting of the process: who needs it on keeps the others out.
static LOGGING: std::sync::RwLock<()> = std::sync::RwLock::new(());
fn logged<T>(f: impl FnOnce() -> T) -> T {
    static ONCE: std::sync::Once = std::sync::Once::new();
    let _g = LOGGING.write().unwrap_or_else(|e| e.into_inner());
    ONCE.call_once(|| log::set_logger(&Log).expect("harness: a logger is set"));
    log::set_max_level(log::LevelFilter::Trace);
    let r = f();
    log::set_max_level(log::LevelFilter::Off);
    r
}
pub fn c04(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c04_case(t);
    if g.case.ops.len() < 200 && Mix::of(&t.hdr).below(23) == 7 {
        let a = build(&g.case)?;
        let (b, e, m) = logged(|| build(&g.case).map(|b| (b, emit_as(&a, ELF), emit_as(&a, MACHO))))
            .and_then(|(b, e, m)| Ok((b, e.key(), m.key())))?;
        let _r = LOGGING.read().unwrap_or_else(|e| e.into_inner());
        cx.add("artifacts built and emitted with logging", 1);
        for (what, x) in [("while logging", &a), ("of an artifact built while logging", &b)] {
            ensure!(emit_as(x, ELF).key() == e, "ELF bytes differ {what}");
            ensure!(emit_as(x, MACHO).key() == m, "Mach-O bytes differ {what}");
        }
    }
    let _r = LOGGING.read().unwrap_or_else(|e| e.into_inner());
    let mut mix = Mix::of(&t.hdr);
    let a = build(&g.case)?;
    let e0 = emit_as(&a, ELF);
    let m0 = emit_as(&a, MACHO);
    let (ek, mk) = (e0.key(), m0.key());
    let chk = |what: &str, x: &Artifact| -> Result<(), String> {
        ensure!(emit_as(x, ELF).key() == ek, "ELF bytes differ {what}");
        ensure!(emit_as(x, MACHO).key() == mk, "Mach-O bytes differ {what}");
        Ok(())
    };
    let c = a.clone();
    chk("on the second emission", &a)?;
    chk("in a clone", &c)?;
    let _ = emit_as(&a, BinaryFormat::Wasm);
    let _ = emit_as(&a, BinaryFormat::Coff);
    if mix.below(4) == 0 {
        let path = cx.tmp("o");
        if let Ok(f) = std::fs::File::create(&path) {
            let _ = guard(|| a.write(f));
        }
        let _ = std::fs::remove_file(&path);
    }
    chk("after failed emissions and writes", &a)?;
    chk("in an artifact built again by the same calls", &build(&g.case)?)?;
    // emissions interleaved with the calls
    let mut b = g.case.artifact();
    for op in &g.case.ops {
        if mix.below(3.max(g.case.ops.len() / 40)) == 0 {
            let f = match mix.below(4) {
                0 => MACHO,
                1 => BinaryFormat::Coff,
                _ => ELF,
            };
            let x = emit_as(&b, f).key();
            let y = emit_as(&b, f).key();
            ensure!(x == y, "two emissions in a row differ mid-history: {x} / {y}");
            if mix.below(3) == 0 {
                b = b.clone();
            }
        }
        let x = call(&mut b, op)?;
        let _ = x;
    }
    chk("after emissions between the calls", &b)?;
    chk("originally", &a)?;
    let p = g.model.program();
    cx.classify(&p);
    if rich(&p) && !e0.refused() {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

const TRIPLES_FMT: &[(&str, Option<BinaryFormat>)] = &[
    (X64, Some(BinaryFormat::Elf)),
    ("x86_64-apple-darwin", Some(BinaryFormat::Macho)),
    ("aarch64-apple-ios", Some(BinaryFormat::Macho)),
    ("x86_64-pc-windows-msvc", None),
    ("x86_64-pc-windows-gnu", None),
    ("i686-unknown-linux-gnu", Some(BinaryFormat::Elf)),
    ("x86_64-unknown-linux-musl", Some(BinaryFormat::Elf)),
    ("wasm32-unknown-unknown", None),
    ("i686-pc-windows-msvc", None),
    ("aarch64-apple-darwin", Some(BinaryFormat::Macho)),
    ("s390x-unknown-linux-gnu", Some(BinaryFormat::Elf)),
];
pub fn c05_case(t: &Tape) -> Gen {
    let complete = t.hdr[14] >= 0x6000;
    decode(
        t,
        &GenCfg {
            complete,
            errors: 3,
            targets: Targets::Both,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c05(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c05_case(t);
    let mut a = build(&g.case)?;
    let undef = g.model.undefined();
    let p = g.model.program();
    let all = [
        BinaryFormat::Elf,
        BinaryFormat::Macho,
        BinaryFormat::Coff,
        BinaryFormat::Wasm,
        BinaryFormat::Unknown,
    ];
    let check_fmt = |o: Out, f: BinaryFormat, what: &str| -> Result<(), String> {
        if !undef.is_empty() {
            return match o {
                Out::Err(ArtifactError::UndefinedSymbols(l)) => {
                    ensure!(
                        l == undef,
                        "{what}: lists {l:?} as undefined, declared but undefined are {undef:?}"
                    );
                    // and so does the message (of a list short enough to be read)
                    if l.len() < 100 && l.iter().all(|n| n.len() < 4096) {
                        let n = l.clone();
                        let m = ArtifactError::UndefinedSymbols(l).to_string();
                        for n in n {
                            ensure!(
                                m.contains(n.as_str()) || m.contains(&format!("{n:?}")),
                                "{what}: the message {m:?} is without {n:?}"
                            );
                        }
                    }
                    Ok(())
                }
                o => Err(format!("{what} with undefined {undef:?}: {}", o.key())),
            };
        }
        match (o, f) {
            (Out::Bytes(b), BinaryFormat::Elf) => {
                ensure!(b.starts_with(b"\x7fELF"), "{what}: not an ELF file");
                Ok(())
            }
            (Out::Bytes(b), BinaryFormat::Macho) => {
                mach::parse(&b).map_err(|e| format!("{what}: {e}"))?;
                Ok(())
            }
            (o, BinaryFormat::Elf) | (o, BinaryFormat::Macho) => {
                Err(format!("{what} of a complete supported artifact: {:?}", o))
            }
            (Out::Err(ArtifactError::UnsupportedBinaryFormat(x)), f) => {
                ensure!(x == f, "{what}: the error names {x:?}, requested was {f:?}");
                let m = ArtifactError::UnsupportedBinaryFormat(x).to_string();
                ensure!(
                    m.contains(&f.to_string()) || m.contains(&format!("{f:?}")),
                    "{what}: the message {m:?} is without the format"
                );
                Ok(())
            }
            (o, _) => Err(format!("{what}: {}", o.key())),
        }
    };
    for f in all {
        check_fmt(emit_as(&a, f), f, &format!("emit_as {f:?}"))?;
    }
    // emit() is the target's own format
    let (tr, _) = TRIPLES_FMT[(t.hdr[13] as usize * TRIPLES_FMT.len()) >> 16];
    a.target = triple(tr);
    let f = a.target.binary_format;
    let (x, y) = (emit(&a), emit_as(&a, f));
    ensure!(
        x.key() == y.key(),
        "emit() for {tr}: {}, emit_as({f:?}): {}",
        x.key(),
        y.key()
    );
    if !tr.starts_with("wasm") || !undef.is_empty() {
        if !(tr.starts_with("s390x") && f == MACHO) {
            check_fmt(x, f, &format!("emit() for {tr}"))?;
        }
    }
    cx.classify(&p);
    cx.class(if undef.is_empty() { "complete" } else { "incomplete" });
    if g.case.ops.len() >= 2 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C07 .. C11

pub fn c07_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            mach: false,
            targets: Targets::All,
            errors: 2,
            big_zero: true,
            max_align: 20,
            ..GenCfg::default()
        },
    )
}
pub fn c07(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c07_case(t);
    let (_, b) = elf_bytes(&g.case)?;
    let e = elf::parse(&b)?;
    elf::validate(&e, tgt_of(&g.case))?;
    let p = g.model.program();
    cx.classify(&p);
    cx.class(g.case.target);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    if cx.counting && t.hdr[12] % 8 == 0 && b.len() < 1 << 20 && cx.keep.len() < if cx.thorough { 4000 } else { 150 } {
        cx.keep.push((t.clone(), b, g.case.target));
    }
    Ok(())
}
pub fn c08_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            mach: false,
            targets: Targets::All,
            errors: 2,
            big_zero: true,
            max_len: 2000,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c08(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c08_case(t);
    let (_, b) = elf_bytes(&g.case)?;
    let e = elf::parse(&b)?;
    let p = g.model.program();
    elf_content(&p, &e, &elf_locate(&p, &e)?)?;
    cx.classify(&p);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
pub fn c09_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            mach: false,
            targets: Targets::All,
            errors: 4,
            max_len: 60,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c09(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c09_case(t);
    let (_, b) = elf_bytes(&g.case)?;
    let e = elf::parse(&b)?;
    let p = g.model.program();
    elf_symbols(&p, &g.case.name, &e)?;
    cx.classify(&p);
    let binds: BTreeSet<u8> = e.syms.iter().map(|s| s.bind()).collect();
    if rich(&p) && binds.len() >= 2 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
pub fn c10_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            mach: false,
            targets: Targets::All,
            max_align: 63,
            max_len: 60,
            links: false,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c10(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c10_case(t);
    let (_, b) = elf_bytes(&g.case)?;
    let e = elf::parse(&b)?;
    let p = g.model.program();
    elf_attrs(&p, &e, &elf_locate(&p, &e)?)?;
    cx.classify(&p);
    if rich(&p) && p.defs.iter().any(|d| d.d.align().is_some()) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
pub fn c11_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            mach: false,
            targets: Targets::All,
            errors: 2,
            wild_at: true,
            max_len: 60,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c11(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c11_case(t);
    let (_, b) = elf_bytes(&g.case)?;
    let e = elf::parse(&b)?;
    let p = g.model.program();
    elf_links(&p, &e, &elf_locate(&p, &e)?, tgt_of(&g.case).big)?;
    cx.classify(&p);
    cx.add("links checked", p.links.len() as u64);
    if p.links.len() >= 2 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C14 .. C18

pub fn c14_case(t: &Tape) -> Gen {
    decode_nolinks_off_x64(
        t,
        &GenCfg {
            elf: false,
            targets: Targets::Both,
            errors: 2,
            big_zero: true,
            ..GenCfg::default()
        },
    )
}
/// Mach-O relocations are x86-64 ones; other targets get no links.
pub fn decode_nolinks_off_x64(t: &Tape, cfg: &GenCfg) -> Gen {
    let mut h = R::new(&t.hdr);
    let tg = gen::pick_target(&mut h, cfg.targets);
    let mut c = *cfg;
    if tg != X64 && tg != "x86_64-apple-darwin" {
        c.links = false;
    }
    decode(t, &c)
}
pub fn c14(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c14_case(t);
    let (_, b) = mach_bytes(&g.case)?;
    let m = mach::parse(&b)?;
    mach::validate(&m, tgt_of(&g.case))?;
    let p = g.model.program();
    cx.classify(&p);
    cx.class(g.case.target);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    if cx.counting && t.hdr[12] % 8 == 0 && b.len() < 1 << 20 && cx.keep.len() < if cx.thorough { 4000 } else { 150 } {
        cx.keep.push((t.clone(), b, g.case.target));
    }
    Ok(())
}
pub fn c15_case(t: &Tape) -> Gen {
    decode_nolinks_off_x64(
        t,
        &GenCfg {
            elf: false,
            targets: Targets::Both,
            errors: 1,
            big_zero: true,
            max_len: 500,
            ..GenCfg::default()
        },
    )
}
pub fn c15(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c15_case(t);
    let (_, b) = mach_bytes(&g.case)?;
    let m = mach::parse(&b)?;
    let p = g.model.program();
    mach_content(&p, &m, &mach_locate(&p, &m)?)?;
    cx.classify(&p);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
pub fn c16_case(t: &Tape) -> Gen {
    // now and then as many sections as a section ordinal has values, or nearly
    if t.hdr[13] >= 0xfe00 && t.hdr[13] < 0xff00 {
        let n = 240 + (t.hdr[13] as usize & 0xff) / 8;
        let mut mix = Mix::of(&t.hdr);
        let mut ops = vec![];
        for i in 0..n {
            let kind = [SKind::Data, SKind::Debug, SKind::Text][mix.below(3)];
            let name = format!("s{i}");
            ops.push(Op::Declare {
                name: name.clone(),
                d: D::Sec {
                    kind,
                    s: false,
                    align: None,
                },
                style: 0,
                api: 0,
            });
            ops.push(Op::Define {
                name,
                body: Body::Blob {
                    len: 1 + mix.below(9) as u32,
                    seed: i as u16,
                    cstr: false,
                },
                syms: if mix.below(3) > 0 {
                    vec![(format!("c{i}"), 1)]
                } else {
                    vec![]
                },
                api: 1,
            });
        }
        let (scope, vis) = (Scope::Global, Vis::Default);
        for (name, d, body) in [
            (
                "f",
                D::Fn {
                    scope,
                    vis,
                    align: None,
                },
                Body::Blob {
                    len: 5,
                    seed: 1,
                    cstr: false,
                },
            ),
            (
                "z",
                D::Data {
                    scope,
                    vis,
                    w: true,
                    s: false,
                    align: None,
                },
                Body::Zero(40),
            ),
        ] {
            let name = name.to_string();
            ops.push(Op::Declare {
                name: name.clone(),
                d,
                style: 0,
                api: 0,
            });
            ops.push(Op::Define {
                name,
                body,
                syms: vec![],
                api: 0,
            });
        }
        let mut model = Model::default();
        for o in &ops {
            model.apply(o);
        }
        return Gen {
            case: Case {
                target: X64,
                name: "many.o".into(),
                ops,
            },
            model,
            used: BTreeSet::new(),
        };
    }
    decode_nolinks_off_x64(
        t,
        &GenCfg {
            elf: false,
            targets: Targets::Both,
            errors: 4,
            max_len: 60,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c16(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c16_case(t);
    let many = g.case.name == "many.o";
    let (_, b) = match mach_bytes(&g.case) {
        // more sections than ordinals: a refusal is right, a wrapped ordinal is not
        Err(_) if many && g.model.order.len() > 250 => {
            cx.class("too many sections, refused");
            return Ok(());
        }
        r => r?,
    };
    cx.class_if(many, "near or at 255 sections");
    let m = mach::parse(&b)?;
    let p = g.model.program();
    mach_symbols(&p, &m)?;
    cx.classify(&p);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
pub fn c17_case(t: &Tape) -> Gen {
    decode_nolinks_off_x64(
        t,
        &GenCfg {
            elf: false,
            targets: Targets::Both,
            max_len: 60,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c17(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c17_case(t);
    let (_, b) = mach_bytes(&g.case)?;
    let m = mach::parse(&b)?;
    let p = g.model.program();
    mach_sections(&p, &m, &mach_locate(&p, &m)?)?;
    cx.classify(&p);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
pub fn c18_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            elf: false,
            targets: Targets::X64,
            errors: 2,
            max_len: 60,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c18(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c18_case(t);
    let (_, b) = mach_bytes(&g.case)?;
    let m = mach::parse(&b)?;
    let p = g.model.program();
    mach_links(&p, &m, &mach_locate(&p, &m)?)?;
    cx.classify(&p);
    cx.add("links checked", p.links.len() as u64);
    if p.links.len() >= 2 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C20, C21

fn c20_full(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            targets: Targets::X64,
            errors: 0,
            max_len: 80,
            big_zero: false,
            ..GenCfg::default()
        },
    )
}
pub fn c20_case(t: &Tape) -> Gen {
    let mut g = c20_full(t);
    let i = (t.hdr[12] as usize * (TARGETS.len() + VARIANTS.len())) >> 16;
    let x = TARGETS.iter().chain(VARIANTS).nth(i).unwrap().triple;
    g.case.target = x;
    if !x.starts_with("x86_64") {
        g.case.ops.retain(|o| {
            !matches!(
                o,
                Op::Link { rel: Rel::Auto, .. }
                    | Op::Link {
                        rel: Rel::Debug { .. },
                        ..
                    }
            )
        });
        g.model.links.retain(|l| matches!(l.rel, Rel::Raw { .. }));
    }
    g
}
pub fn c20(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c20_case(t);
    let tg = tgt_of(&g.case);
    let base = Case {
        target: X64,
        ..g.case.clone()
    };
    let p = g.model.program();
    let (_, b0) = elf_bytes(&base)?;
    let c0 = canon_elf(&p, &elf::parse(&b0)?)?;
    let (_, b) = elf_bytes(&g.case)?;
    let e = elf::parse(&b)?;
    ensure!(Some(e.machine) == tg.elf, "{}: e_machine {}", tg.triple, e.machine);
    elf::validate(&e, tg).map_err(|e| format!("{}: {e}", tg.triple))?;
    let mut c1 = canon_elf(&p, &e)?;
    ensure!(c1.machine == tg.elf.unwrap() as u64, "{}: machine", tg.triple);
    c1.machine = c0.machine;
    if !tg.big {
        // the automatic pointer width follows the target
        for (n, it) in c1.items.iter_mut() {
            let mine: Vec<&MLink> = p.links.iter().filter(|l| l.from == *n).collect();
            for (r, l) in it.rels.iter_mut().zip(&mine) {
                if l.rel == Rel::Auto && matches!(p.decl(n), Some(D::Data { .. })) {
                    ensure!(
                        r.1 == 10,
                        "{}: automatic pointer relocation {} in {n:?}",
                        tg.triple,
                        r.1
                    );
                    r.1 = 1;
                }
            }
        }
    }
    canon_diff(&c0, &c1).map_err(|e| format!("ELF for {} against x86-64: {e}", tg.triple))?;
    // Mach-O: the automatic links from code are to x86-64 instructions
    let full = c20_full(t);
    let x64 = tg.triple.starts_with("x86_64");
    let portable = |from: &str, rel: &Rel| match rel {
        Rel::Auto => x64 || matches!(full.model.decls[from].d, D::Data { .. }),
        _ => true,
    };
    let mut mach_case = Case {
        target: g.case.target,
        ..full.case.clone()
    };
    mach_case.ops.retain(|o| match o {
        Op::Link { from, rel, .. } => portable(from, rel),
        _ => true,
    });
    let mut mp = full.model.program();
    mp.links.retain(|l| portable(&l.from, &l.rel));
    let a = build(&mach_case)?;
    match tg.mach {
        None => {
            let o = emit_as(&a, MACHO);
            ensure!(
                o.refused(),
                "{}: Mach-O emission for an architecture Mach-O does not have",
                tg.triple
            );
        }
        Some(cpu) => {
            let b = emit_as(&a, MACHO).bytes("Mach-O emission")?;
            let m = mach::parse(&b).map_err(|e| format!("{}: {e}", tg.triple))?;
            ensure!(m.cputype == cpu, "{}: cputype {:#x}", tg.triple, m.cputype);
            let sub_ok = match cpu {
                0x0100_0007 | 7 => m.cpusub & 0xff_ffff == 3,
                0x0100_000c => m.cpusub & 0xff_ffff <= 2,
                18 | 0x0100_0012 | 14 => m.cpusub == 0,
                _ => m.cpusub == 0 || (5..=16).contains(&m.cpusub),
            };
            ensure!(sub_ok, "{}: cpusubtype {}", tg.triple, m.cpusub);
            mach::validate(&m, tg).map_err(|e| format!("{}: {e}", tg.triple))?;
            let mut c1 = canon_mach(&mp, &m)?;
            let a0 = build(&Case {
                target: X64,
                ..mach_case.clone()
            })?;
            let b0 = emit_as(&a0, MACHO).bytes("Mach-O emission")?;
            let c0 = canon_mach(&mp, &mach::parse(&b0)?)?;
            ensure!(c1.machine == cpu as u64, "machine");
            c1.machine = c0.machine;
            if !tg.big {
                // an address has four bytes there (2 in the length field), not eight
                for (n, it) in c1.items.iter_mut() {
                    let d = full.model.decls[n].d;
                    let there = |l: &&MLink| {
                        l.from == *n && matches!(mach_rel(d, full.model.decls[&l.to].d, l.rel), MRel::Rel(..))
                    };
                    for (r, l) in it.rels.iter_mut().zip(mp.links.iter().filter(there)) {
                        if r.1 & 0xff == 0 && !matches!(l.rel, Rel::Debug { .. }) {
                            let len = r.1 >> 16;
                            ensure!(len == 2, "{}: an address of 1 << {len} bytes in {n:?}", tg.triple);
                            r.1 += 1 << 16;
                        }
                    }
                }
            }
            canon_diff(&c0, &c1).map_err(|e| format!("Mach-O for {} against x86-64: {e}", tg.triple))?;
        }
    }
    // architectures neither format has
    if t.hdr[11] < 0x3000 {
        let (u, machine) = UNSUPPORTED[(t.hdr[10] as usize * UNSUPPORTED.len()) >> 16];
        if let Ok(tr) = u.parse() {
            let mut x = a.clone();
            x.target = tr;
            for f in [ELF, MACHO] {
                let o = emit_as(&x, f);
                // support may be added, but not under another name
                let right = machine != 0
                    && match &o {
                        Out::Bytes(b) if f == ELF => elf::parse(b).map_err(|e| format!("{u}: {e}"))?.machine == machine,
                        _ => false,
                    };
                ensure!(o.refused() || right, "{u}: emitted as {f:?} instead of being refused");
            }
        }
        cx.class("unsupported target");
    }
    // no architecture at all: the format's "none", or a refusal
    if t.hdr[11] >= 0xf800 {
        let mut x = a.clone();
        x.target = triple("unknown-unknown-unknown");
        if let Out::Bytes(b) = emit_as(&x, ELF) {
            let m = elf::parse(&b)?.machine;
            ensure!(m == 0, "unknown architecture: e_machine {m}");
        }
        if let Out::Bytes(b) = emit_as(&x, MACHO) {
            let c = mach::parse(&b)?.cputype;
            ensure!(c == 0, "unknown architecture: cputype {c:#x}");
        }
    }
    cx.class(tg.triple);
    cx.classify(&p);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

pub fn c21_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            errors: 2,
            max_len: 80,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c21(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c21_case(t);
    let p = g.model.program();
    let a = build(&g.case)?;
    let eb = emit_as(&a, ELF).bytes("ELF emission")?;
    let mb = emit_as(&a, MACHO).bytes("Mach-O emission")?;
    let (e, m) = (elf::parse(&eb)?, mach::parse(&mb)?);
    let (ce, cm) = (canon_elf(&p, &e)?, canon_mach(&p, &m)?);
    let (le, lm) = (elf_locate(&p, &e)?, mach_locate(&p, &m)?);
    ensure!(
        ce.imports == cm.imports,
        "imports: ELF {:?}, Mach-O {:?}",
        ce.imports,
        cm.imports
    );
    // the sets of names, from the objects themselves
    let en: BTreeSet<String> = e
        .syms
        .iter()
        .filter(|s| !s.name.is_empty() && s.typ() != 4)
        .map(|s| String::from_utf8_lossy(&s.name).to_string())
        .collect();
    let mn: BTreeSet<String> = m
        .syms
        .iter()
        .map(|s| String::from_utf8_lossy(s.name.get(1..).unwrap_or(b"")).to_string())
        .collect();
    ensure!(
        en == mn,
        "symbol names: only ELF {:?}, only Mach-O {:?}",
        en.difference(&mn),
        mn.difference(&en)
    );
    for d in &p.defs {
        let (x, y) = (&ce.items[&d.name], &cm.items[&d.name]);
        let n = &d.name;
        ensure!(x.zero == y.zero, "{n:?}: zero-initialised in one format only");
        ensure!(x.size == y.size, "{n:?}: sizes {} and {}", x.size, y.size);
        ensure!(
            x.bytes == y.bytes,
            "{n:?}: contents differ: {}",
            diff(&x.bytes, &y.bytes)
        );
        ensure!(
            x.bind == y.bind,
            "{n:?}: binding {} in ELF, {} in Mach-O",
            x.bind,
            y.bind
        );
        ensure!(x.syms == y.syms, "{n:?}: custom symbols {:?} / {:?}", x.syms, y.syms);
        if let Some(al) = d.d.align() {
            let sa = e.secs[le[n.as_str()].sec].align;
            let l = lm[n.as_str()];
            let addr = m.secs[l.sec].addr + l.off;
            ensure!(sa.max(1) == al, "{n:?}: ELF alignment {sa}, declared {al}");
            ensure!(addr % al == 0, "{n:?}: Mach-O address {addr:#x}, ELF alignment {sa}");
        }
        let links: Vec<&MLink> = p.links.iter().filter(|l| l.from == *n).collect();
        ensure!(
            x.rels.len() == links.len(),
            "{n:?}: {} links, {} ELF relocations",
            links.len(),
            x.rels.len()
        );
        let er: Vec<(u64, &String)> = x
            .rels
            .iter()
            .zip(&links)
            .filter(|(_, l)| !(matches!(l.rel, Rel::Debug { .. }) && p.decl(&l.to).map_or(false, |d| d.is_section())))
            .map(|(r, _)| (r.0, &r.3))
            .collect();
        let mr: Vec<(u64, &String)> = y.rels.iter().map(|r| (r.0, &r.3)).collect();
        ensure!(er == mr, "{n:?}: links in ELF {er:?}, in Mach-O {mr:?}");
    }
    cx.classify(&p);
    if rich(&p) {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C22, C23

pub fn c22_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            names: Names::Hostile,
            max_len: 40,
            targets: Targets::X64,
            ..GenCfg::default()
        },
    )
}
pub fn c22(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c22_case(t);
    let p = g.model.program();
    let a = build(&g.case)?;
    let eb = emit_as(&a, ELF).bytes("ELF emission")?;
    let e = elf::parse(&eb)?;
    let l = elf_locate(&p, &e)?;
    elf::validate(&e, tgt_of(&g.case))?;
    elf_symbols(&p, &g.case.name, &e)?;
    elf_content(&p, &e, &l)?;
    elf_attrs(&p, &e, &l)?;
    elf_links(&p, &e, &l, true)?;
    let mb = emit_as(&a, MACHO).bytes("Mach-O emission")?;
    let m = mach::parse(&mb)?;
    let l = mach_locate(&p, &m)?;
    mach::validate(&m, tgt_of(&g.case))?;
    mach_symbols(&p, &m)?;
    mach_content(&p, &m, &l)?;
    mach_sections(&p, &m, &l)?;
    mach_links(&p, &m, &l)?;
    cx.classify(&p);
    let names: Vec<&str> = p
        .defs
        .iter()
        .map(|d| d.name.as_str())
        .chain(p.imports.iter().map(|i| i.0.as_str()))
        .collect();
    cx.class_if(
        names.len() < 200 && names.iter().any(|n| names.iter().any(|m| n != m && n.ends_with(m))),
        "a name is another's suffix",
    );
    cx.class_if(names.iter().any(|n| n.starts_with('.')), "a name starts with a dot");
    cx.class_if(names.iter().any(|n| !n.is_ascii()), "non-ASCII name");
    cx.class_if(names.iter().any(|n| n.len() > 255), "name over 255 bytes");
    cx.class_if(names.contains(&g.case.name.as_str()), "a name equals the object's");
    if names.len() >= 2 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

/// Any link between anything, expressible or not.
pub fn c23_case(t: &Tape) -> Gen {
    let mut g = decode(
        t,
        &GenCfg {
            links: false,
            max_len: 40,
            names: Names::Plain,
            odd: true,
            ..GenCfg::default()
        },
    );
    let mut mix = Mix::of(&t.hdr);
    let p = g.model.program();
    let src: Vec<&PDef> = p.defs.iter().filter(|d| d.body.mem_len() >= 8).collect();
    let all: Vec<String> = g.model.order.clone();
    let n = 1 + mix.below(4);
    let mut ops = vec![];
    if !src.is_empty() {
        for _ in 0..n {
            let f = src[mix.below(src.len())];
            let to = all[mix.below(all.len())].clone();
            let rel = match mix.below(8) {
                0 | 1 => Rel::Auto,
                2 | 3 | 4 => Rel::Raw {
                    reloc: match mix.below(4) {
                        0 => mix.below(12) as u32,
                        1 => mix.below(300) as u32,
                        2 => [15u32, 16, 17, 31, 32, 127, 128, 255][mix.below(8)],
                        _ => mix.next() as u32,
                    },
                    addend: match mix.below(3) {
                        0 => 0,
                        1 => mix.below(200) as i32 - 100,
                        _ => mix.next() as i32,
                    },
                },
                _ => Rel::Debug {
                    size: [4u8, 8, 1, 2, 3, 5, 16, 255, 4, 8, 4, 8][mix.below(12)],
                    addend: if mix.below(2) == 0 { 0 } else { mix.next() as i32 },
                },
            };
            let at = mix.below((f.body.mem_len() - 7) as usize) as u64;
            ops.push(Op::Link {
                from: f.name.clone(),
                to,
                at,
                rel,
            });
        }
    }
    for o in ops {
        let e = g.model.apply(&o);
        assert!(e.contains(&Exp::Ok));
        g.case.ops.push(o);
    }
    g
}
pub fn c23(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c23_case(t);
    let p = g.model.program();
    let a = build(&g.case)?;
    let per_src = |n: &str| -> Vec<&MLink> { p.links.iter().filter(|l| l.from == n).collect() };
    match emit_as(&a, ELF) {
        Out::Bytes(b) => {
            cx.class("ELF emitted");
            let e = elf::parse(&b)?;
            let l = elf_locate(&p, &e)?;
            let got = elf_relocs(&p, &e, &l)?;
            for d in &p.defs {
                let links = per_src(&d.name);
                let none = vec![];
                let r = got.get(d.name.as_str()).unwrap_or(&none);
                ensure!(
                    r.len() == links.len(),
                    "ELF: {:?} has {} links and {} relocations",
                    d.name,
                    links.len(),
                    r.len()
                );
                for (r, k) in r.iter().zip(&links) {
                    ensure!(
                        r.0 == k.at && r.3 == k.to,
                        "ELF: link {k:?} became a relocation at {:#x} to {:?}",
                        r.0,
                        r.3
                    );
                    match k.rel {
                        Rel::Raw { reloc, addend } => {
                            ensure!(
                                (r.1, r.2) == (reloc, addend as i64),
                                "ELF: link {k:?} became type {} addend {}",
                                r.1,
                                r.2
                            )
                        }
                        Rel::Debug { size, addend } => {
                            ensure!(r.2 == addend as i64, "ELF: link {k:?} got addend {}", r.2);
                            let w = match r.1 {
                                1 => 8,
                                10 | 11 => 4,
                                12 => 2,
                                14 => 1,
                                _ => 0,
                            };
                            ensure!(w == size, "ELF: link {k:?} of {size} bytes became type {}", r.1);
                        }
                        Rel::Auto => {
                            if let Some(w) = gen::elf_rel(p.decl(&k.from).unwrap(), p.decl(&k.to).unwrap(), k.rel, true)
                            {
                                ensure!((r.1, r.2) == w, "ELF: link {k:?} became type {} addend {}", r.1, r.2);
                            }
                        }
                    }
                }
            }
        }
        o => cx.class(if matches!(o, Out::Panic(_)) {
            "ELF refused by panic"
        } else {
            "ELF refused by error"
        }),
    }
    match emit_as(&a, MACHO) {
        Out::Bytes(b) => {
            cx.class("Mach-O emitted");
            let m = mach::parse(&b)?;
            let l = mach_locate(&p, &m)?;
            let got = mach_relocs(&p, &m, &l)?;
            for d in &p.defs {
                let links: Vec<&MLink> = per_src(&d.name)
                    .into_iter()
                    .filter(|k| {
                        gen::mach_rel(p.decl(&k.from).unwrap(), p.decl(&k.to).unwrap(), k.rel) != gen::MRel::NoReloc
                    })
                    .collect();
                let none = vec![];
                let r = got.get(d.name.as_str()).unwrap_or(&none);
                ensure!(
                    r.len() == links.len(),
                    "Mach-O: {:?} has {} links and {} relocations",
                    d.name,
                    links.len(),
                    r.len()
                );
                for (r, k) in r.iter().zip(&links) {
                    ensure!(
                        r.0 == k.at && r.4 == k.to,
                        "Mach-O: link {k:?} became a relocation at {:#x} to {:?}",
                        r.0,
                        r.4
                    );
                    match k.rel {
                        Rel::Raw { reloc, addend } => {
                            ensure!(
                                r.1 as u32 == reloc && addend == 0,
                                "Mach-O: link {k:?} became type {}",
                                r.1
                            )
                        }
                        Rel::Debug { size, .. } => {
                            ensure!(
                                1u64 << r.3 == size as u64 && !r.2 && r.1 == 0,
                                "Mach-O: link {k:?} became {r:?}"
                            )
                        }
                        Rel::Auto => match gen::mach_rel(p.decl(&k.from).unwrap(), p.decl(&k.to).unwrap(), k.rel) {
                            gen::MRel::Rel(t, pc, len) => {
                                ensure!((r.1, r.2, r.3) == (t, pc, len), "Mach-O: link {k:?} became {r:?}")
                            }
                            _ => {}
                        },
                    }
                }
            }
        }
        o => cx.class(if matches!(o, Out::Panic(_)) {
            "Mach-O refused by panic"
        } else {
            "Mach-O refused by error"
        }),
    }
    cx.classify(&p);
    if !p.links.is_empty() {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

pub fn c26_case(t: &Tape) -> Gen {
    decode(
        t,
        &GenCfg {
            max_len: 80,
            max_align: 8,
            odd: true,
            ..GenCfg::default()
        },
    )
}
pub fn c26(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c26_case(t);
    let p = g.model.program();
    if g.model.order.is_empty() {
        return Ok(());
    }
    let mut mix = Mix::of(&t.hdr);
    // drop one declared name and every link touching it, or one link, and compare
    let victim = if !p.links.is_empty() && mix.below(4) == 0 {
        None
    } else {
        Some(g.model.order[mix.below(g.model.order.len())].clone())
    };
    let dropped_link = if victim.is_none() {
        Some(mix.below(p.links.len()))
    } else {
        None
    };
    let mut nth = 0usize;
    let mut touched: Vec<usize> = vec![];
    let ops: Vec<Op> = g
        .case
        .ops
        .iter()
        .filter_map(|o| match (&victim, o) {
            (None, Op::Link { .. }) => {
                nth += 1;
                if Some(nth - 1) == dropped_link {
                    touched.push(nth - 1);
                    None
                } else {
                    Some(o.clone())
                }
            }
            (None, o) => Some(o.clone()),
            (Some(v), Op::Declare { name, .. })
            | (Some(v), Op::DeclareWith { name, .. })
            | (Some(v), Op::Define { name, .. }) => (name != v).then(|| o.clone()),
            (Some(v), Op::Bulk { items }) => Some(Op::Bulk {
                items: items.iter().filter(|i| i.0 != *v).cloned().collect(),
            }),
            (Some(v), Op::Link { from, to, .. }) => {
                nth += 1;
                if from == v || to == v {
                    touched.push(nth - 1);
                    None
                } else {
                    Some(o.clone())
                }
            }
        })
        .collect();
    let small = Case { ops, ..g.case.clone() };
    let mut pm = Model::default();
    for o in &small.ops {
        pm.apply(o);
    }
    let ps = pm.program();
    let (a, b) = (build(&g.case)?, build(&small)?);
    for f in [ELF, MACHO] {
        let whole = canon(f, &p, &emit_as(&a, f).bytes("emission")?)?;
        let part = canon(f, &ps, &emit_as(&b, f).bytes("emission of the smaller artifact")?)?;
        ensure!(
            part.items.keys().all(|k| whole.items.contains_key(k)),
            "{f:?}: a definition vanished when something was added"
        );
        let mut wi = whole.imports.clone();
        if let Some(v) = &victim {
            wi.remove(v);
        }
        ensure!(
            wi == part.imports,
            "{f:?}: imports {:?} with, {:?} without {victim:?}",
            whole.imports,
            part.imports
        );
        for (n, x) in &part.items {
            let mut y = whole.items[n].clone();
            // remove the relocations of the dropped links
            let mine: Vec<usize> = p
                .links
                .iter()
                .enumerate()
                .filter(|(_, l)| {
                    l.from == *n
                        && (f == ELF
                            || gen::mach_rel(p.decl(&l.from).unwrap(), p.decl(&l.to).unwrap(), l.rel)
                                != gen::MRel::NoReloc)
                })
                .map(|x| x.0)
                .collect();
            ensure!(
                mine.len() == y.rels.len(),
                "{f:?}: {n:?} has {} links, {} relocations",
                mine.len(),
                y.rels.len()
            );
            let keep: Vec<_> = y
                .rels
                .iter()
                .zip(&mine)
                .filter(|(_, i)| !touched.contains(i))
                .map(|(r, _)| r.clone())
                .collect();
            y.rels = keep;
            item_diff(n, x, &y).map_err(|e| format!("{f:?}: without / with {victim:?}: {e}"))?;
        }
        // and the added thing is what it would be alone
        if let Some(d) = victim.as_ref().and_then(|v| p.def(v)) {
            let alone = Case {
                target: g.case.target,
                name: g.case.name.clone(),
                ops: vec![
                    Op::Declare {
                        name: d.name.clone(),
                        d: d.d,
                        style: 0,
                        api: 0,
                    },
                    Op::Define {
                        name: d.name.clone(),
                        body: d.body.clone(),
                        syms: d.syms.clone(),
                        api: 1,
                    },
                ],
            };
            let pa = Program {
                defs: vec![d.clone()],
                imports: vec![],
                links: vec![],
            };
            let c = canon(
                f,
                &pa,
                &emit_as(&build(&alone)?, f).bytes("emission of one definition")?,
            )?;
            let mut y = whole.items[&d.name].clone();
            y.rels.clear();
            item_diff(&d.name, &c.items[&d.name], &y).map_err(|e| format!("{f:?}: alone / in the whole: {e}"))?;
        }
    }
    cx.classify(&p);
    cx.class(match (&victim, &dropped_link) {
        (Some(v), _) if p.decl(v).map_or(false, |d| d.is_import()) => "dropped an import",
        (Some(v), _) if p.decl(v).map_or(false, |d| d.is_section()) => "dropped a section",
        (Some(_), _) => "dropped a definition",
        _ => "dropped a link",
    });
    if p.defs.len() >= 2 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}

// ------------------------------------------------------------------ C13

/// Artifacts at the edges of 16-bit section numbering.
pub fn c13_case(t: &Tape) -> Gen {
    let mut h = R::new(&t.hdr);
    let edge = h.of(&[0xff00usize, 0x10000, 0xff00, 0x1_1170]);
    let delta = h.pick(17) as i64 - 8;
    let nlinks_src = h.of(&[0usize, 1, 40, 3000]);
    let nimports = h.pick(6);
    let special = h.pick(30);
    let mixsec = h.chance(70);
    let target = if h.chance(60) {
        X64
    } else {
        TARGETS[h.pick(TARGETS.len())].triple
    };
    let autos = target == X64 && h.chance(50);
    // definitions + null, strtab, symtab, stack note + one relocation section per source (+ extended indices)
    let n = (edge as i64 + delta - 4 - nlinks_src as i64) as usize;
    let mut ops = vec![];
    let mut mix = Mix::of(&t.hdr);
    let scopes = [Scope::Local, Scope::Global, Scope::Weak];
    let mut names = Vec::with_capacity(n);
    for i in 0..n {
        let sp = i < special || i + special >= n;
        let k = if sp {
            mix.below(5)
        } else if mixsec {
            mix.below(40)
        } else {
            0
        };
        let name = format!("d{i:x}");
        let scope = scopes[mix.below(3)];
        let len = (mix.below(3) + if i % 7 == 0 { 8 } else { 0 }) as u32;
        let body = Body::Blob {
            len: len.max(if nlinks_src > 0 { 4 } else { 0 }),
            seed: i as u16 | 1,
            cstr: false,
        };
        let (d, body, syms) = match k {
            1 => (
                D::Data {
                    scope,
                    vis: Vis::Default,
                    w: mix.below(2) == 0,
                    s: false,
                    align: None,
                },
                body,
                vec![],
            ),
            2 => (
                D::Data {
                    scope,
                    vis: Vis::Default,
                    w: true,
                    s: false,
                    align: None,
                },
                Body::Zero(1 + mix.below(99) as u64),
                vec![],
            ),
            3 => {
                let syms = if i < special {
                    vec![(format!("c{i:x}"), 1)]
                } else {
                    vec![]
                };
                let body = Body::Blob {
                    len: len.max(4),
                    seed: i as u16 | 1,
                    cstr: false,
                };
                (
                    D::Sec {
                        kind: SKind::Debug,
                        s: false,
                        align: None,
                    },
                    body,
                    syms,
                )
            }
            _ => (
                D::Fn {
                    scope,
                    vis: Vis::Default,
                    align: None,
                },
                body,
                vec![],
            ),
        };
        ops.push(Op::Declare {
            name: name.clone(),
            d,
            style: 0,
            api: 0,
        });
        ops.push(Op::Define {
            name: name.clone(),
            body,
            syms,
            api: 1,
        });
        names.push((name, d));
    }
    for i in 0..nimports {
        ops.push(Op::Declare {
            name: format!("imp{i}"),
            d: D::FnImport,
            style: 0,
            api: 0,
        });
        names.push((format!("imp{i}"), D::FnImport));
    }
    // links: nlinks_src distinct sources, spread over the whole range, biased to the ends
    let mut srcs = BTreeSet::new();
    let mut tries = 0;
    while srcs.len() < nlinks_src && tries < 100_000 {
        tries += 1;
        let i = match mix.below(3) {
            0 => mix.below(50.min(n)),
            1 => n - 1 - mix.below(50.min(n)),
            _ => mix.below(n),
        };
        // zero-initialised data has no bytes to relocate
        let is_zero = matches!(
            &ops[2 * i + 1],
            Op::Define {
                body: Body::Zero(_),
                ..
            }
        );
        if !is_zero {
            srcs.insert(i);
        }
    }
    for i in srcs {
        for _ in 0..1 + mix.below(4) / 3 {
            let to = match mix.below(3) {
                0 => names.len() - 1 - mix.below(60.min(names.len())),
                1 => mix.below(60),
                _ => mix.below(names.len()),
            };
            let mut rel = Rel::Raw {
                reloc: 1 + mix.below(12) as u32,
                addend: mix.below(1000) as i32,
            };
            if autos && crate::gen::elf_rel(names[i].1, names[to].1, Rel::Auto, true).is_some() {
                rel = Rel::Auto;
            }
            ops.push(Op::Link {
                from: names[i].0.clone(),
                to: names[to].0.clone(),
                at: mix.below(2) as u64,
                rel,
            });
        }
    }
    let mut m = Model::default();
    for o in &ops {
        m.apply(o);
    }
    Gen {
        case: Case {
            target,
            name: "big.o".into(),
            ops,
        },
        model: m,
        used: BTreeSet::new(),
    }
}
pub fn c13_show(t: &Tape) -> String {
    let g = c13_case(t);
    let p = g.model.program();
    format!(
        "{}: {} definitions, {} imports, {} links; first calls:\n",
        g.case.target,
        p.defs.len(),
        p.imports.len(),
        p.links.len()
    ) + &g
        .case
        .ops
        .iter()
        .take(12)
        .map(|o| format!("{o:?}\n"))
        .collect::<String>()
}
pub fn c13(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let g = c13_case(t);
    let (_, b) = elf_bytes(&g.case)?;
    let e = elf::parse(&b)?;
    let p = g.model.program();
    let t64 = tgt(g.case.target);
    elf::validate(&e, t64)?;
    let l = elf_locate(&p, &e)?;
    elf_symbols(&p, &g.case.name, &e)?;
    elf_content(&p, &e, &l)?;
    elf_links(&p, &e, &l, t64.big)?;
    // section symbols: one section, one symbol at most, and relocations depend on them
    let k = e.secs.len();
    cx.class(if k < 0xff00 {
        "sections < 0xff00"
    } else if k < 0x10000 {
        "0xff00 <= sections < 0x10000"
    } else {
        "sections >= 0x10000"
    });
    cx.class_if(!p.links.is_empty(), "has links");
    cx.nontrivial(&hash_of(&g.case), || format!("{} sections; {}", k, c13_show(t)));
    if cx.counting && cx.keep.len() < 3 {
        cx.keep.push((t.clone(), b, g.case.target));
    }
    Ok(())
}
