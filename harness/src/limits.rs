//! C28: values at the limits of the fields that hold them. Sizes, alignments, symbol offsets, places
//! and types of relocations around 2^8, 2^16, 2^31, 2^32 and beyond, on targets of both word sizes.
use crate::drive::*;
use crate::elf::{self, ensure};
use crate::expect::*;
use crate::gen::{decode, Gen, GenCfg, MRel, Names, Targets};
use crate::mach;
use crate::model::*;
use crate::props::*;
use crate::spec::*;
use crate::tape::*;

/// a number near a power of two
fn edge(mix: &mut Mix, max: u32) -> u64 {
    let k = match mix.below(6) {
        0 => 32,
        1 => 31,
        2 => 33 + mix.below(30) as u32,
        _ => [4, 8, 12, 15, 16, 20, 24, 30, 31, 32, 33, 34, 40, 48, 56, 62][mix.below(16)],
    }
    .min(max);
    let b = 1u64 << k;
    match mix.below(6) {
        0 => b - 1,
        1 => b,
        2 => b + 1,
        3 => b + mix.below(300) as u64,
        4 => b - 1 - mix.below(300.min(b as usize - 1)) as u64,
        _ => (mix.next() | 1) & (b - 1) | b >> 1,
    }
}
pub fn is_mach(t: &Tape) -> bool {
    t.hdr[14] >= 0x8000
}
pub fn c28_case(t: &Tape) -> Gen {
    let mach = is_mach(t);
    let g = decode(
        t,
        &GenCfg {
            elf: !mach,
            mach,
            links: false,
            targets: if mach { Targets::Both } else { Targets::All },
            max_len: 30,
            max_align: 8,
            names: Names::Plain,
            giant: false,
            ..GenCfg::default()
        },
    );
    let mut mix = Mix::of(&t.hdr);
    let p = g.model.program();
    let what = mix.below(64) | 1 << mix.below(6);
    // few values or many, so that each meets neighbours of a usual size
    let often = [1, 1, 2, 5][mix.below(4)];
    let now = |m: &mut Mix, k: usize| what >> k & 1 == 1 && m.below(often) == 0;
    let mut ops = vec![];
    let style = 0;
    for (n, d) in &p.imports {
        ops.push(Op::Declare {
            name: n.clone(),
            d: *d,
            style,
            api: 0,
        });
    }
    for x in &p.defs {
        let mut x = x.clone();
        if let Body::Zero(n) = &mut x.body {
            if now(&mut mix, 0) {
                *n = edge(&mut mix, 60);
            }
        }
        let zero = x.body.is_zero();
        if now(&mut mix, 1) {
            if let D::Fn { align, .. } | D::Data { align, .. } | D::Sec { align, .. } = &mut x.d {
                let e = match mix.below(4) {
                    0 => 31,
                    1 => 32,
                    2 => 33,
                    _ => mix.below(61),
                };
                // Mach-O linkers know no larger ones than 2^31, and what has bytes would be as much padding
                let e = match (mach, zero) {
                    (true, true) => e.min(31),
                    (true, false) => e % 15,
                    _ => e,
                };
                *align = Some(e as u8);
            }
        }
        for s in &mut x.syms {
            if now(&mut mix, 2) {
                s.1 = edge(&mut mix, 62);
            }
        }
        ops.push(Op::Declare {
            name: x.name.clone(),
            d: x.d,
            style,
            api: 0,
        });
        ops.push(Op::Define {
            name: x.name,
            body: x.body,
            syms: x.syms,
            api: 0,
        });
    }
    let src: Vec<&PDef> = p.defs.iter().filter(|d| !d.body.is_zero()).collect();
    let to: Vec<&String> = p
        .defs
        .iter()
        .filter(|d| !mach || !d.d.is_section())
        .map(|d| &d.name)
        .chain(p.imports.iter().map(|i| &i.0))
        .collect();
    if what & 0x38 != 0 && !src.is_empty() && !to.is_empty() {
        for _ in 0..1 + mix.below(5) {
            let f = src[mix.below(src.len())];
            let debug = matches!(f.d, D::Sec { kind: SKind::Debug, .. });
            let len = f.body.mem_len();
            let at = if now(&mut mix, 3) {
                edge(&mut mix, 62)
            } else {
                mix.below(len as usize + 1) as u64
            };
            let rel = match mach {
                true if debug && now(&mut mix, 5) => Rel::Debug {
                    size: [4, 8][mix.below(2)],
                    addend: 0,
                },
                true => Rel::Raw {
                    reloc: [0, 1, 2, 3, 4, 6, 7, 8][mix.below(8)],
                    addend: 0,
                },
                false => Rel::Raw {
                    reloc: if now(&mut mix, 4) {
                        match mix.below(4) {
                            0 => [
                                0xff,
                                0x100,
                                0x101,
                                0xffff,
                                0x10000,
                                0xff_ffff,
                                0x100_0000,
                                0x7fff_ffff,
                                0x8000_0000,
                                0xffff_ffff,
                            ][mix.below(10)],
                            1 => 0x100 << mix.below(24),
                            _ => edge(&mut mix, 31) as u32,
                        }
                    } else {
                        mix.below(0x100) as u32
                    },
                    addend: match mix.below(4) {
                        0 => 0,
                        1 => [i32::MIN, i32::MAX, -1, 1][mix.below(4)],
                        _ => mix.next() as i32,
                    },
                },
            };
            ops.push(Op::Link {
                from: f.name.clone(),
                to: to[mix.below(to.len())].clone(),
                at,
                rel,
            });
        }
    }
    let mut model = Model::default();
    for o in &ops {
        let e = model.apply(o);
        assert!(e.iter().all(|e| *e == Exp::Ok), "harness: {o:?} gives {e:?}");
    }
    let used = g.used;
    Gen {
        case: Case {
            target: g.case.target,
            name: g.case.name,
            ops,
        },
        model,
        used,
    }
}

/// whether all values fit the fields of the object, without a doubt
fn must_fit(p: &Program, mach: bool, big: bool) -> bool {
    let small = |v: u64, bits: u32| v >> bits == 0;
    let word = if big { 64 } else { 32 };
    if !mach {
        return big
            || p.defs.iter().all(|d| {
                small(d.body.mem_len(), word)
                    && small(d.d.align().unwrap_or(1), word)
                    && d.syms.iter().all(|s| small(s.1, word))
            }) && p.links.iter().all(|l| {
                small(l.at, 32)
                    && if let Rel::Raw { reloc, .. } = l.rel {
                        small(reloc as u64, 8)
                    } else {
                        true
                    }
            });
    }
    // sizes and padding, all of them together
    let blob_align = p
        .defs
        .iter()
        .filter(|d| !d.body.is_zero())
        .all(|d| d.d.align().unwrap_or(1) <= 1 << 14);
    let total: u128 = p
        .defs
        .iter()
        .map(|d| d.body.mem_len() as u128 + 2 * d.d.align().unwrap_or(16) as u128)
        .sum::<u128>()
        + p.defs
            .iter()
            .flat_map(|d| &d.syms)
            .map(|s| s.1 as u128)
            .max()
            .unwrap_or(0);
    blob_align && total < if big { 1 << 62 } else { 1 << 32 } && p.links.iter().all(|l| l.at < (1 << 31) - (1 << 24))
}

/// Each link one relocation, at its place even if that is outside of its source.
fn places(p: &Program, m: &mach::Mach, l: &Locs) -> Result<(), String> {
    let mut want = vec![];
    for k in &p.links {
        let x = &l[k.from.as_str()];
        match mach_rel_in(m, p.decl(&k.from).unwrap(), p.decl(&k.to).unwrap(), k.rel) {
            MRel::Rel(t, pc, len) => want.push((x.sec, x.off as i128 + k.at as i128, t, pc, len, format!("_{}", k.to))),
            MRel::NoReloc => {}
            MRel::Refused => return Err(format!("harness: inexpressible link {k:?}")),
        }
    }
    let mut got = vec![];
    for (i, s) in m.secs.iter().enumerate() {
        for r in &s.rels {
            ensure!(r.ext, "relocation at {:#x} is not external", r.addr);
            let sym = m
                .syms
                .get(r.sym as usize)
                .ok_or("relocation symbol number out of range")?;
            let to = String::from_utf8_lossy(&sym.name).to_string();
            got.push((i, r.addr as i128, r.typ, r.pcrel, r.len, to));
        }
    }
    want.sort();
    got.sort();
    for (w, g) in want.iter().zip(&got) {
        ensure!(
            w == g,
            "relocation (section, place, type, pc-relative, length, target) {g:?} instead of {w:?}"
        );
    }
    ensure!(
        want.len() == got.len(),
        "{} links, {} relocations",
        want.len(),
        got.len()
    );
    Ok(())
}

pub fn c28(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let mach = is_mach(t);
    let g = c28_case(t);
    let p = g.model.program();
    let a = build(&g.case)?;
    let tg = tgt_of(&g.case);
    // (the validators want relocations and symbols to lie in their sections)
    let within = |l: &MLink| {
        p.def(&l.from)
            .is_some_and(|d| d.body.mem_len() >= 8 && l.at <= d.body.mem_len() - 8)
    };
    let inside = p.links.iter().all(within) && p.defs.iter().all(|d| d.syms.iter().all(|s| s.1 <= d.body.mem_len()));
    let fits = must_fit(&p, mach, tg.big);
    let out = emit_as(&a, if mach { MACHO } else { ELF });
    let f = match (mach, tg.big) {
        (false, false) => "ELF, 32 bits",
        (false, true) => "ELF, 64 bits",
        (true, false) => "Mach-O, 32 bits",
        (true, true) => "Mach-O, 64 bits",
    };
    match out {
        Out::Bytes(b) if !mach => {
            cx.class(&format!("{f}: emitted"));
            let e = elf::parse(&b)?;
            if inside {
                elf::validate(&e, tg)?;
            }
            let l = elf_locate(&p, &e)?;
            elf_content(&p, &e, &l)?;
            elf_symbols(&p, &g.case.name, &e)?;
            elf_attrs(&p, &e, &l)?;
            elf_links(&p, &e, &l, tg.big)?;
        }
        Out::Bytes(b) => {
            cx.class(&format!("{f}: emitted"));
            let m = mach::parse(&b)?;
            if inside {
                mach::validate(&m, tg)?;
            }
            let l = mach_locate(&p, &m)?;
            mach_content(&p, &m, &l)?;
            mach_symbols(&p, &m)?;
            mach_sections(&p, &m, &l)?;
            places(&p, &m, &l)?;
        }
        o => {
            cx.class(&format!("{f}: refused"));
            ensure!(!fits, "every value fits ({f}), but emission is {}", o.key());
        }
    }
    if p.defs.len() >= 2 {
        cx.nontrivial(&g.case, || show_case(&g.case));
    }
    Ok(())
}
