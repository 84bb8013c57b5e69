//! C27: ELF objects for every architecture a linker here knows are linked into a static program,
//! and the image is compared with what the definitions and (raw) links say.
use crate::drive::*;
use crate::link_elf::{classes, image, run, Dir, Img, Ran};
use crate::prog::*;
use crate::spec::*;
use crate::tape::*;
use std::collections::BTreeSet;
use std::process::Command;
use std::time::Duration;

pub struct Arch {
    pub target: &'static str,
    /// relocation number, bytes, relative to the place; the first is a pointer
    pub kinds: &'static [(u32, usize, bool)],
    pub linkers: &'static [&'static [&'static str]],
}
const LLD: &[&str] = &["/usr/bin/ld.lld-18"];
const PPC: &[(u32, usize, bool)] = &[(1, 4, false), (26, 4, true)];
const PPC64: &[(u32, usize, bool)] = &[(38, 8, false), (1, 4, false), (44, 8, true), (26, 4, true)];
const MIPS: &[(u32, usize, bool)] = &[(2, 4, false), (248, 4, true)];
const MIPS64: &[(u32, usize, bool)] = &[(18, 8, false), (2, 4, false)];
const ARM: &[(u32, usize, bool)] = &[(2, 4, false), (3, 4, true)];
const ARM64: &[(u32, usize, bool)] = &[(257, 8, false), (258, 4, false), (260, 8, true), (261, 4, true)];
const I386: &[(u32, usize, bool)] = &[(1, 4, false), (2, 4, true)];
const RV64: &[(u32, usize, bool)] = &[(2, 8, false), (1, 4, false), (57, 4, true)];
const RV32: &[(u32, usize, bool)] = &[(1, 4, false), (57, 4, true)];
pub const ARCHS: &[Arch] = &[
    Arch {
        target: "x86_64-unknown-linux-gnux32",
        kinds: &[(10, 4, false), (2, 4, true)],
        linkers: &[
            LLD,
            &["/usr/bin/ld.bfd", "-m", "elf32_x86_64"],
            &["/usr/bin/ld.gold", "-m", "elf32_x86_64"],
        ],
    },
    Arch {
        target: "i686-unknown-linux-gnu",
        kinds: I386,
        linkers: &[LLD],
    },
    Arch {
        target: "aarch64-unknown-linux-gnu",
        kinds: ARM64,
        linkers: &[LLD],
    },
    Arch {
        target: "aarch64_be-unknown-linux-gnu",
        kinds: ARM64,
        linkers: &[LLD],
    },
    Arch {
        target: "armv7-unknown-linux-gnueabihf",
        kinds: ARM,
        linkers: &[LLD],
    },
    Arch {
        target: "armebv7r-none-eabi",
        kinds: ARM,
        linkers: &[LLD],
    },
    Arch {
        target: "mips-unknown-linux-gnu",
        kinds: MIPS,
        linkers: &[LLD],
    },
    Arch {
        target: "mipsel-unknown-linux-gnu",
        kinds: MIPS,
        linkers: &[LLD],
    },
    Arch {
        target: "mips64-unknown-linux-gnuabi64",
        kinds: MIPS64,
        linkers: &[LLD],
    },
    Arch {
        target: "mips64el-unknown-linux-gnuabi64",
        kinds: MIPS64,
        linkers: &[LLD],
    },
    Arch {
        target: "powerpc-unknown-linux-gnu",
        kinds: PPC,
        linkers: &[LLD],
    },
    Arch {
        target: "powerpc64-unknown-linux-gnu",
        kinds: PPC64,
        linkers: &[LLD],
    },
    Arch {
        target: "powerpc64le-unknown-linux-gnu",
        kinds: PPC64,
        linkers: &[LLD],
    },
    Arch {
        target: "riscv32imac-unknown-none-elf",
        kinds: RV32,
        linkers: &[LLD],
    },
    Arch {
        target: "riscv64gc-unknown-linux-gnu",
        kinds: RV64,
        linkers: &[LLD],
    },
    Arch {
        target: "s390x-unknown-linux-gnu",
        kinds: &[(22, 8, false), (4, 4, false), (23, 8, true), (5, 4, true)],
        linkers: &[LLD],
    },
    Arch {
        target: "sparc64-unknown-linux-gnu",
        kinds: &[(32, 8, false), (3, 4, false), (6, 4, true)],
        linkers: &[LLD],
    },
    Arch {
        target: "msp430-none-elf",
        kinds: &[(1, 4, false)],
        linkers: &[LLD],
    },
];
fn arch(t: &Tape) -> &'static Arch {
    &ARCHS[t.hdr[0] as usize * ARCHS.len() >> 16]
}
fn linker(t: &Tape) -> &'static [&'static str] {
    let l = arch(t).linkers;
    l[t.hdr[1] as usize * l.len() >> 16]
}
const EXTS: [&str; 4] = ["ext_f0", "ext_f1", "ext_d0", "ext_d1"];

pub fn c27_units(t: &Tape) -> Vec<Unit> {
    let cfg = Cfg {
        units: 1 + (t.hdr[3] as usize * 3 >> 16),
        pic: false,
        shared: false,
        raw: true,
        shared_names: false,
        debug: false,
        secs: true,
        inplace: false,
    };
    let mut us = units(t, cfg);
    let kinds = arch(t).kinds;
    let mut m = Mix::of(&t.hdr);
    for u in us.iter_mut() {
        for f in u.fns.iter_mut() {
            // machine code is content only
            f.steps.clear();
        }
        // what an address far behind it can be taken of: strings may be merged
        let plain: BTreeSet<String> = u
            .defs()
            .filter(|(_, d)| matches!(d, D::Data { s: false, .. }))
            .map(|(n, _)| n.to_string())
            .chain(u.imports.iter().filter(|i| !i.1).map(|i| i.0.clone()))
            .collect();
        for p in u.datas.iter_mut().flat_map(|x| x.ptrs.iter_mut()) {
            // the room there is
            let fit: Vec<u32> = kinds.iter().filter(|k| k.1 as u32 <= p.width()).map(|k| k.0).collect();
            let reloc = fit[m.below(fit.len())];
            let mut addend = p.addend() as i32;
            if plain.contains(&p.to) && m.below(4) == 0 {
                addend += m.below(0x6_0000) as i32;
            }
            p.rel = Rel::Raw { reloc, addend };
        }
    }
    us
}
pub fn c27_show(t: &Tape) -> String {
    format!("{} {}\n{}", arch(t).target, linker(t).join(" "), show(&c27_units(t)))
}
pub fn c27(t: &Tape, cx: &mut Cx) -> Result<(), String> {
    let us = c27_units(t);
    let (a, ld) = (arch(t), linker(t));
    let dir = Dir(cx.tmp("link"));
    std::fs::create_dir_all(&dir.0).map_err(|e| format!("harness: {e}"))?;
    let mut c = Command::new(ld[0]);
    c.args(&ld[1..])
        .args(["-static", "-e", "entry", "-o"])
        .arg(dir.0.join("out"));
    for (i, e) in EXTS.iter().enumerate() {
        c.arg(format!("--defsym={e}={:#x}", 0x2_3450 + 0x110 * i));
    }
    let mut mix = Mix::of(&t.hdr);
    for (i, u) in us.iter().enumerate() {
        let k = u.case(a.target, &mut mix);
        let mut x = k.artifact();
        for op in &k.ops {
            if let Err(e) = call(&mut x, op)? {
                return Err(format!("{op:?} refused: {e}"));
            }
        }
        let b = emit_as(&x, ELF).bytes("ELF emission of a complete artifact")?;
        let f = dir.0.join(format!("{i}.o"));
        std::fs::write(&f, b).map_err(|e| format!("harness: {e}"))?;
        c.arg(f);
    }
    match run(&mut c, &dir.0.join("err"), Duration::from_secs(60)) {
        Ran::Done(d) if d.ok => {}
        Ran::Done(d) => {
            return Err(format!(
                "{} rejects an object for {}: {}; {}",
                ld[0],
                a.target,
                d.status,
                d.err.lines().take(4).collect::<Vec<_>>().join(" | ")
            ))
        }
        Ran::NoStart(e) => return Err(format!("harness: {}: {e}", ld[0])),
        Ran::Late => {
            cx.add("links without an answer", 1);
            return Ok(());
        }
    }
    let m = std::fs::read(dir.0.join("out")).map_err(|e| format!("harness: {e}"))?;
    image(&us, &Img::parse(m)?, a.kinds).map_err(|e| format!("{} for {}: {e}", ld[0], a.target))?;
    classes(cx, &us, &format!("{} {}", a.target, &ld[0][9..]));
    cx.add("images linked and compared", 1);
    if us.iter().map(|u| u.links().len()).sum::<usize>() >= 2 {
        cx.nontrivial(&us, || c27_show(t));
    }
    Ok(())
}

/// GNU ld takes the addends of i386 relocations from the section's bytes only: a pointer five
/// bytes into data points there in the linked program, or the artifact is refused.
pub fn addend_i386() -> Result<(), String> {
    let d = D::Data {
        scope: Scope::Global,
        vis: Vis::Default,
        w: true,
        s: false,
        align: None,
    };
    let c = Case {
        target: "i686-unknown-linux-gnu",
        name: "k.o".into(),
        ops: vec![
            Op::Declare {
                name: "d".into(),
                d,
                style: 0,
                api: 0,
            },
            Op::Define {
                name: "d".into(),
                body: Body::Raw(vec![0; 8]),
                syms: vec![],
                api: 0,
            },
            Op::Link {
                from: "d".into(),
                to: "d".into(),
                at: 4,
                rel: Rel::Raw { reloc: 1, addend: 5 },
            },
        ],
    };
    let Out::Bytes(b) = emit_as(&build(&c)?, ELF) else {
        return Ok(());
    };
    let dir = Dir(std::env::temp_dir().join(format!("faerie-verif-probe-{}", std::process::id())));
    let io = |e: std::io::Error| format!("harness: {e}");
    std::fs::create_dir_all(&dir.0).map_err(io)?;
    std::fs::write(dir.0.join("0.o"), b).map_err(io)?;
    let mut l = Command::new("/usr/bin/ld.bfd");
    l.args(["-m", "elf_i386", "-static", "-e", "d", "-o"]);
    l.arg(dir.0.join("out")).arg(dir.0.join("0.o"));
    match run(&mut l, &dir.0.join("err"), Duration::from_secs(60)) {
        Ran::Done(d) if d.ok => {}
        Ran::Done(d) => return Err(format!("GNU ld rejects an i386 object: {}", d.err)),
        _ => return Ok(()),
    }
    let m = Img::parse(std::fs::read(dir.0.join("out")).map_err(io)?)?;
    let d = m.syms.iter().find(|y| y.name == "d").ok_or("no symbol \"d\"")?.value;
    let (v, _) = m.mem(d + 4, 4).ok_or("no content")?;
    let v = m.num(&v);
    crate::elf::ensure!(
        v == d + 5,
        "a pointer to \"d\" with addend 5 in an i386 object linked by GNU ld holds {v:#x} instead of {:#x}",
        d + 5
    );
    Ok(())
}
