//! C24: declaration values, data values and the artifact builder against plain records.
use crate::drive::*;
use crate::elf::ensure;
use crate::model::merge;
use crate::props::Check;
use crate::spec::*;
use crate::tape::*;
use faerie::artifact::DefinedDecl;
use faerie::{ArtifactBuilder, ArtifactError, Data, DataDecl, DataType, Decl, FunctionDecl, ImportKind, SectionDecl};

const _: Check = c24;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct F {
    scope: Scope,
    vis: Vis,
    align: Option<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Da {
    scope: Scope,
    vis: Vis,
    w: bool,
    s: bool,
    align: Option<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Se {
    kind: SKind,
    s: bool,
    align: Option<u8>,
}
const F0: F = F {
    scope: Scope::Local,
    vis: Vis::Default,
    align: None,
};
const DA0: Da = Da {
    scope: Scope::Local,
    vis: Vis::Default,
    w: false,
    s: false,
    align: None,
};

fn dt(s: bool) -> DataType {
    if s {
        DataType::String
    } else {
        DataType::Bytes
    }
}
fn al(e: Option<u8>) -> Option<u64> {
    e.map(|e| 1u64 << e)
}
const SCOPES: [Scope; 3] = [Scope::Local, Scope::Global, Scope::Weak];
const VISES: [Vis; 3] = [Vis::Default, Vis::Protected, Vis::Hidden];
const KINDS: [SKind; 3] = [SKind::Data, SKind::Debug, SKind::Text];
fn any_align(r: &mut R) -> Option<u8> {
    let v = r.pick(100);
    let u = r.pick(64) as u8;
    match v {
        0..=29 => None,
        30..=79 => Some(u % 8),
        _ => Some(u),
    }
}

macro_rules! scope_vis {
    ($d:expr, $m:expr, $k:expr, $r:expr) => {{
        let s = $r.of(&SCOPES);
        let v = $r.of(&VISES);
        let a = any_align($r);
        match $k {
            0 => {
                $m.scope = s;
                $d = $d.with_scope(fscope(s))
            }
            1 => {
                $m.scope = s;
                $d.set_scope(fscope(s))
            }
            2 => {
                $m.scope = s;
                $d = match s {
                    Scope::Local => $d.local(),
                    Scope::Global => $d.global(),
                    Scope::Weak => $d.weak(),
                }
            }
            3 => {
                $m.vis = v;
                $d = $d.with_visibility(fvis(v))
            }
            4 => {
                $m.vis = v;
                $d.set_visibility(fvis(v))
            }
            5 => {
                $m.vis = v;
                $d = match v {
                    Vis::Default => $d.default_visibility(),
                    Vis::Protected => $d.protected(),
                    Vis::Hidden => $d.hidden(),
                }
            }
            6 => {
                $m.align = a;
                $d = $d.with_align(al(a))
            }
            _ => {
                $m.align = a;
                $d.set_align(al(a))
            }
        }
    }};
}
macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        ensure!(g == w, "{} is {:?}, the calls give {:?}", $what, g, w);
    }};
}
fn see_fn(d: &FunctionDecl, m: &F) -> Result<(), String> {
    eq!("function scope", d.get_scope(), fscope(m.scope));
    eq!("function visibility", d.get_visibility(), fvis(m.vis));
    eq!("function alignment", d.get_align(), al(m.align));
    eq!("function is_global", d.is_global(), m.scope == Scope::Global);
    Ok(())
}
fn see_data(d: &DataDecl, m: &Da) -> Result<(), String> {
    eq!("data scope", d.get_scope(), fscope(m.scope));
    eq!("data visibility", d.get_visibility(), fvis(m.vis));
    eq!("data alignment", d.get_align(), al(m.align));
    eq!("data type", d.get_datatype(), dt(m.s));
    eq!("data is_writable", d.is_writable(), m.w);
    eq!("data is_global", d.is_global(), m.scope == Scope::Global);
    Ok(())
}
fn see_sec(d: &SectionDecl, m: &Se) -> Result<(), String> {
    eq!("section kind", d.kind(), fkind(m.kind));
    eq!("section data type", d.get_datatype(), dt(m.s));
    eq!("section alignment", d.get_align(), al(m.align));
    eq!("section is_writable", d.is_writable(), m.kind == SKind::Data);
    eq!("section is_global", d.is_global(), false);
    Ok(())
}
/// every query of the wrappers, against the record
fn see_decl(d: &Decl, m: &D) -> Result<(), String> {
    eq!(format!("{m:?} is_import"), d.is_import(), m.is_import());
    eq!(format!("{m:?} is_section"), d.is_section(), m.is_section());
    let k = match m {
        D::FnImport => Some(ImportKind::Function),
        D::DataImport => Some(ImportKind::Data),
        _ => None,
    };
    eq!(format!("{m:?} import kind"), ImportKind::from_decl(d), k);
    match (d, m) {
        (Decl::Import(ImportKind::Function), D::FnImport) | (Decl::Import(ImportKind::Data), D::DataImport) => {}
        (Decl::Defined(w), m) => {
            eq!(format!("{m:?} is_function"), w.is_function(), matches!(m, D::Fn { .. }));
            eq!(format!("{m:?} is_data"), w.is_data(), matches!(m, D::Data { .. }));
            eq!(format!("{m:?} is_section"), w.is_section(), m.is_section());
            eq!(format!("{m:?} is_global"), w.is_global(), m.scope() == Scope::Global);
            let wr = matches!(m, D::Data { w: true, .. } | D::Sec { kind: SKind::Data, .. });
            eq!(format!("{m:?} is_writable"), w.is_writable(), wr);
            eq!(format!("{m:?} get_align"), w.get_align(), m.align());
            match (w, *m) {
                (DefinedDecl::Function(d), D::Fn { scope, vis, align }) => see_fn(d, &F { scope, vis, align })?,
                (
                    DefinedDecl::Data(d),
                    D::Data {
                        scope,
                        vis,
                        w,
                        s,
                        align,
                    },
                ) => see_data(
                    d,
                    &Da {
                        scope,
                        vis,
                        w,
                        s,
                        align,
                    },
                )?,
                (DefinedDecl::Section(d), D::Sec { kind, s, align }) => see_sec(d, &Se { kind, s, align })?,
                _ => return Err(format!("{m:?} is wrapped as {w:?}")),
            }
        }
        _ => return Err(format!("{m:?} is {d:?}")),
    }
    Ok(())
}
fn merged(old: &(Decl, D), new: &(Decl, D)) -> Result<bool, String> {
    let mut x = old.0;
    let r = guard(|| x.absorb(new.0)).map_err(|e| format!("absorb panicked: {e}"))?;
    match merge(old.1, new.1) {
        Some(w) => {
            ensure!(r.is_ok(), "{:?} does not absorb {:?}: {r:?}", old.1, new.1);
            see_decl(&x, &w).map_err(|e| format!("{:?} absorbing {:?}: {e}", old.1, new.1))?;
            let y = x;
            let r = guard(|| x.absorb(new.0)).map_err(|e| format!("absorb panicked: {e}"))?;
            ensure!(
                r.is_ok() && x == y,
                "{:?} absorbing {:?} a second time: {r:?}",
                old.1,
                new.1
            );
            Ok(true)
        }
        None => {
            match r {
                Err(ArtifactError::IncompatibleDeclaration { old: o, new: n }) => {
                    ensure!(
                        o == old.0 && n == new.0,
                        "{:?} refusing {:?} names {o:?} and {n:?}",
                        old.1,
                        new.1
                    )
                }
                r => return Err(format!("{:?} absorbing {:?}: {r:?}", old.1, new.1)),
            }
            ensure!(x == old.0, "{:?} refused {:?} and became {x:?}", old.1, new.1);
            see_decl(&x, &old.1)?;
            Ok(false)
        }
    }
}

pub fn c24_show(t: &Tape) -> String {
    format!("{} builder calls and merges from\n{}", t.rows.len(), t.to_text())
}
pub fn c24(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let mut h = R::new(&t.hdr);
    let kind = h.of(&KINDS);
    let (mut f, mut fm) = (Decl::function(), F0);
    let (mut d, mut dm) = (Decl::data(), DA0);
    if h.chance(50) {
        d = Decl::cstring();
        dm.s = true;
    }
    let (mut s, mut sm) = (
        if h.chance(50) {
            SectionDecl::new(fkind(kind))
        } else {
            Decl::section(fkind(kind))
        },
        Se {
            kind,
            s: false,
            align: None,
        },
    );
    // every value made so far, to compare and merge
    let mut all: Vec<(Decl, D)> = vec![
        (Decl::function_import().into(), D::FnImport),
        (Decl::data_import().into(), D::DataImport),
        (Decl::Import(ImportKind::Function), D::FnImport),
        (Decl::Import(ImportKind::Data), D::DataImport),
    ];
    let push = |all: &mut Vec<(Decl, D)>, x: Decl, m: D| -> Result<(), String> {
        see_decl(&x, &m)?;
        // the same attributes, spelt in another way
        for style in [0u8, 7, 13] {
            let y = m.to_decl(style);
            ensure!(
                x == y,
                "{m:?} built by calls differs from {m:?} built directly: {x:?} / {y:?}"
            );
        }
        for (y, k) in all.iter() {
            ensure!((x == *y) == (m == *k), "{m:?} and {k:?}: equal is {}", x == *y);
        }
        all.push((x, m));
        Ok(())
    };
    push(
        &mut all,
        f.into(),
        D::Fn {
            scope: fm.scope,
            vis: fm.vis,
            align: fm.align,
        },
    )?;
    push(
        &mut all,
        d.into(),
        D::Data {
            scope: dm.scope,
            vis: dm.vis,
            w: dm.w,
            s: dm.s,
            align: dm.align,
        },
    )?;
    push(
        &mut all,
        s.into(),
        D::Sec {
            kind: sm.kind,
            s: sm.s,
            align: sm.align,
        },
    )?;
    let (mut upgrades, mut refusals) = (0, 0);
    for row in &t.rows {
        let mut r = R::new(row);
        match r.weighted(&[10, 14, 6, 4, 3, 2, 2]) {
            0 => {
                let k = r.pick(8);
                let before = f;
                let bm = fm;
                scope_vis!(f, fm, k, &mut r);
                see_fn(&f, &fm).map_err(|e| format!("after call {k}: {e}"))?;
                see_fn(&before, &bm)?;
                push(
                    &mut all,
                    f.into(),
                    D::Fn {
                        scope: fm.scope,
                        vis: fm.vis,
                        align: fm.align,
                    },
                )?;
            }
            1 => {
                let k = r.pick(13);
                if k < 8 {
                    scope_vis!(d, dm, k, &mut r);
                } else {
                    let b = r.chance(50);
                    match k {
                        8 => {
                            dm.w = b;
                            d = d.with_writable(b)
                        }
                        9 => {
                            dm.w = b;
                            d.set_writable(b)
                        }
                        10 => {
                            dm.w = b;
                            d = if b { d.writable() } else { d.read_only() }
                        }
                        11 => {
                            dm.s = b;
                            d = d.with_datatype(dt(b))
                        }
                        _ => {
                            dm.s = b;
                            d.set_datatype(dt(b))
                        }
                    }
                }
                see_data(&d, &dm).map_err(|e| format!("after call {k}: {e}"))?;
                push(
                    &mut all,
                    d.into(),
                    D::Data {
                        scope: dm.scope,
                        vis: dm.vis,
                        w: dm.w,
                        s: dm.s,
                        align: dm.align,
                    },
                )?;
            }
            2 => {
                let k = r.pick(4);
                let b = r.chance(50);
                let a = any_align(&mut r);
                match k {
                    0 => {
                        sm.s = b;
                        s = s.with_datatype(dt(b))
                    }
                    1 => {
                        sm.s = b;
                        s.set_datatype(dt(b))
                    }
                    2 => {
                        sm.align = a;
                        s = s.with_align(al(a))
                    }
                    _ => {
                        sm.align = a;
                        s.set_align(al(a))
                    }
                }
                see_sec(&s, &sm).map_err(|e| format!("after call {k}: {e}"))?;
                push(
                    &mut all,
                    s.into(),
                    D::Sec {
                        kind: sm.kind,
                        s: sm.s,
                        align: sm.align,
                    },
                )?;
            }
            3 => {
                let kind = r.of(&KINDS);
                sm = Se {
                    kind,
                    s: false,
                    align: None,
                };
                s = Decl::section(fkind(kind));
                see_sec(&s, &sm)?;
                push(
                    &mut all,
                    s.into(),
                    D::Sec {
                        kind,
                        s: false,
                        align: None,
                    },
                )?;
            }
            4 => {
                // merge every pair that involves one value
                let i = r.pick(all.len());
                for j in 0..all.len() {
                    for (a, b) in [(i, j), (j, i)] {
                        if merged(&all[a], &all[b])? {
                            upgrades += (all[a].1.is_import() && !all[b].1.is_import()) as u64;
                        } else {
                            refusals += 1;
                        }
                    }
                }
            }
            5 => {
                let n = r.pick(40);
                let m = r.pick(3);
                let data = match m {
                    0 => Data::ZeroInit(n * 1000),
                    1 => Data::Blob(vec![n as u8; n]),
                    _ => vec![0u8; n].into(),
                };
                eq!("data file_size", data.file_size(), if m == 0 { 0 } else { n });
                eq!("data is_empty", data.is_empty(), n == 0);
                eq!("data is_zero_init", data.is_zero_init(), m == 0);
                if m == 2 {
                    ensure!(data == Data::Blob(vec![0u8; n]), "bytes turned into data are {data:?}");
                }
                cx.class("data value");
            }
            _ => {
                let tr = TARGETS[r.pick(TARGETS.len())].triple;
                let mut b = ArtifactBuilder::new(triple(tr));
                let (mut name, mut lib) = ("faerie.o".to_string(), false);
                for i in 0..r.pick(5) {
                    if r.chance(50) {
                        name = format!("n{i}");
                        b = b.name(name.clone());
                    } else {
                        lib = r.chance(60);
                        b = b.library(lib);
                    }
                }
                let a = b.finish();
                eq!("artifact name", &a.name, &name);
                eq!("artifact library flag", a.is_library, lib);
                eq!("artifact target", &a.target, &triple(tr));
                eq!("imports of a new artifact", a.imports().count(), 0);
                eq!(
                    "undefined symbols of a new artifact",
                    a.undefined_symbols(),
                    Vec::<String>::new()
                );
                let n = faerie::Artifact::new(triple(tr), name.clone());
                eq!("artifact name", &n.name, &name);
                eq!("artifact library flag", n.is_library, false);
                eq!(
                    "emission of a new artifact",
                    emit_as(&n, ELF).key(),
                    emit_as(&a, ELF).key()
                );
                cx.class("artifact builder");
            }
        }
    }
    cx.add("import upgrades merged", upgrades);
    cx.add("merges refused", refusals);
    cx.class_if(refusals > 0, "refused merges");
    cx.class_if(upgrades > 0, "upgrading merges");
    if all.len() >= 10 {
        cx.nontrivial(&t.rows, || c24_show(t));
    }
    Ok(())
}
