//! The list of checks: how many cases, from which generator, and the probes of recorded findings.
use crate::drive::*;
use crate::elf::{self, ensure};
use crate::files::{c06, c06_case};
use crate::mach;
use crate::props::*;
use crate::run::Spec;
use crate::spec::*;
use crate::tape::Tape;
use target_lexicon::BinaryFormat;

pub struct Probe {
    pub property: &'static str,
    pub name: &'static str,
    pub run: fn() -> Result<(), String>,
}
pub fn probes() -> Vec<Probe> {
    vec![
        Probe {
            property: "C09",
            name: "custom-symbol-named-like-a-definition",
            run: custom_symbol_elf,
        },
        Probe {
            property: "C16",
            name: "custom-symbol-named-like-a-definition",
            run: custom_symbol_macho,
        },
        Probe {
            property: "C23",
            name: "automatic-link-on-aarch64",
            run: auto_aarch64,
        },
        Probe {
            property: "C27",
            name: "addend-on-i386",
            run: crate::link_arch::addend_i386,
        },
    ]
}
fn custom_symbol(f: BinaryFormat) -> Result<Option<Vec<u8>>, String> {
    let c = Case {
        target: X64,
        name: "k.o".into(),
        ops: vec![
            Op::Declare {
                name: "f".into(),
                d: D::Fn {
                    scope: Scope::Global,
                    vis: Vis::Default,
                    align: None,
                },
                style: 0,
                api: 0,
            },
            Op::Define {
                name: "f".into(),
                body: Body::Blob {
                    len: 4,
                    seed: 1,
                    cstr: false,
                },
                syms: vec![],
                api: 0,
            },
            Op::Declare {
                name: ".s".into(),
                d: D::Sec {
                    kind: SKind::Data,
                    s: false,
                    align: None,
                },
                style: 0,
                api: 0,
            },
            Op::Define {
                name: ".s".into(),
                body: Body::Blob {
                    len: 8,
                    seed: 2,
                    cstr: false,
                },
                syms: vec![("f".into(), 4)],
                api: 1,
            },
        ],
    };
    let mut a = c.artifact();
    for o in &c.ops {
        if call(&mut a, o)?.is_err() {
            return Ok(None);
        }
    }
    Ok(match emit_as(&a, f) {
        Out::Bytes(b) => Some(b),
        _ => None,
    })
}
/// Function f and custom symbol f: both have a symbol, or the artifact is refused.
fn custom_symbol_elf() -> Result<(), String> {
    if let Some(b) = custom_symbol(ELF)? {
        let e = elf::parse(&b)?;
        let n = e.syms.iter().filter(|s| s.name == b"f").count();
        ensure!(
            n == 2,
            "function \"f\" and custom section symbol \"f\": {n} symbol in the ELF object, so one of the two is gone"
        );
    }
    Ok(())
}
fn custom_symbol_macho() -> Result<(), String> {
    if let Some(b) = custom_symbol(MACHO)? {
        let m = mach::parse(&b)?;
        let n = m.by_name("f").count();
        ensure!(n == 2, "function \"f\" and custom section symbol \"f\": {n} symbol in the Mach-O object, so one of the two is gone");
    }
    Ok(())
}
/// A call on AArch64 is R_AARCH64_CALL26 (283), or refused.
fn auto_aarch64() -> Result<(), String> {
    let (scope, vis, align) = (Scope::Global, Vis::Default, None);
    let c = Case {
        target: "aarch64-unknown-linux-gnu",
        name: "k.o".into(),
        ops: vec![
            Op::Declare {
                name: "f".into(),
                d: D::Fn { scope, vis, align },
                style: 0,
                api: 0,
            },
            Op::Define {
                name: "f".into(),
                body: Body::Blob {
                    len: 4,
                    seed: 1,
                    cstr: false,
                },
                syms: vec![],
                api: 0,
            },
            Op::Declare {
                name: "g".into(),
                d: D::FnImport,
                style: 0,
                api: 0,
            },
            Op::Link {
                from: "f".into(),
                to: "g".into(),
                at: 0,
                rel: Rel::Auto,
            },
        ],
    };
    if let Out::Bytes(b) = emit_as(&build(&c)?, ELF) {
        let e = elf::parse(&b)?;
        let t: Vec<u32> = e.rels.iter().flat_map(|s| s.1.iter().map(|r| r.typ)).collect();
        ensure!(
            t == [283],
            "an automatic call link on AArch64 has the x86-64 relocation types {t:?}"
        );
    }
    Ok(())
}
macro_rules! sp {
    ($id:literal, $check:path, $case:path, $quick:expr, $thorough:expr, $rows:expr, $rule:expr) => {
        Spec {
            id: $id,
            quick: $quick,
            thorough: $thorough,
            rows: $rows,
            check: $check,
            show: |t: &Tape| show_case(&$case(t).case),
            rule: $rule,
            post: None,
            threads: 8,
        }
    };
}
pub fn all() -> Vec<Spec> {
    vec![
        sp!("C01", c01, c01_case, 600_000, 15_000_000, 60, "random call histories (guided and chaotic), every outcome and both listings compared with a reference model; non-trivial: at least one accepted and one rejected call and four calls"),
        sp!("C02", c02, c02_case, 100_000, 4_000_000, 40, "random histories with rejected calls, compared with the same history without them: listings, later outcomes, emitted program in both formats; non-trivial: at least one rejected call and one definition"),
        sp!("C03", c03, c03_case, 100_000, 4_000_000, 40, "random complete artifacts, each rebuilt by two random legal re-orderings of its calls, emitted in both formats and compared item by item; non-trivial: at least two definitions and one link"),
        sp!("C04", c04, c04_case, 100_000, 4_000_000, 40, "random histories emitted repeatedly, from clones, rebuilt, after failures and between calls, bytes compared; non-trivial: complete with at least two definitions"),
        sp!("C05", c05, c05_case, 240_000, 8_000_000, 40, "random complete and incomplete artifacts emitted in five formats and for ten triples; non-trivial: at least two calls"),
        Spec {
            post: Some(crate::readers::elf_readers),
            ..sp!("C07", c07, c07_case, 400_000, 12_000_000, 60, "random complete artifacts for all targets, parsed by a strict ELF parser and validator; a sample also read by GNU and LLVM readers; non-trivial: at least two definitions")
        },
        sp!("C08", c08, c08_case, 400_000, 12_000_000, 50, "random complete artifacts for all targets; contents, sizes and storage of every definition compared with what was given; non-trivial: at least two definitions"),
        sp!("C09", c09, c09_case, 400_000, 12_000_000, 50, "random complete artifacts for all targets; the whole symbol table compared with the declarations; non-trivial: at least two definitions and two bindings"),
        sp!("C10", c10, c10_case, 400_000, 12_000_000, 50, "random complete artifacts for all targets; section type, flags and alignment of every definition compared with its declaration; non-trivial: at least two definitions and a declared alignment"),
        sp!("C11", c11, c11_case, 400_000, 12_000_000, 60, "random complete artifacts with links; the whole list of relocations compared with the links; non-trivial: at least two links"),
        Spec {
            show: crate::link_mach::c19_show,
            ..sp!("C19", crate::link_mach::c19, c13_case, 6_000, 150_000, 40, "one or two random units of functions, data, imports and custom sections linked by lld's Mach-O linker into a dynamic library for x86-64 or AArch64 (data pointers only), sometimes with unused parts removed; the image compared with the definitions and links; non-trivial: at least two functions and three links")
        },
        Spec {
            show: crate::link_arch::c27_show,
            ..sp!("C27", crate::link_arch::c27, c13_case, 6_000, 150_000, 40, "one to three random units of functions, data, imports and custom sections with raw absolute and relative links, for eighteen ELF targets, linked into a static program by lld (x32 also by GNU ld and gold); the image compared with the definitions and links; non-trivial: at least two links")
        },
        Spec {
            show: crate::link_elf::c25_show,
            ..sp!("C25", crate::link_elf::c25, c13_case, 6_000, 150_000, 40, "two to four random units that know common names as import, local, global or weak, linked together by GNU ld, gold or lld into programs that are run, or into shared libraries whose exports are compared, or rejected; non-trivial: at least two units with something of their own")
        },
        Spec {
            show: crate::link_elf::c12_show,
            ..sp!("C12", crate::link_elf::c12, c13_case, 6_000, 150_000, 40, "random programs of functions, data and custom sections put together from code templates, linked by GNU ld, gold or lld (static, with a shared library, position-independent, as a shared library; after a partial link, stripped, copied, with unused sections removed or identical ones folded) and run; the answer compared with an interpreter's and the static image with the definitions and links; non-trivial: at least two functions and three links")
        },
        Spec {
            show: c13_show,
            post: Some(crate::readers::big_elf_readers),
            ..sp!("C13", c13, c13_case, 24, 600, 0, "artifacts whose section count is within a few of 0xff00 and 0x10000 or beyond, validated and compared with the model as in C07-C11; non-trivial: every case")
        },
        Spec {
            post: Some(crate::readers::mach_readers),
            ..sp!("C14", c14, c14_case, 400_000, 12_000_000, 60, "random complete artifacts for all Mach-O targets, parsed by a strict Mach-O parser and validator; a sample also read by LLVM readers; non-trivial: at least two definitions")
        },
        sp!("C15", c15, c15_case, 400_000, 12_000_000, 50, "random complete artifacts for all Mach-O targets; address, content, extent and alignment of every definition compared with what was given; non-trivial: at least two definitions"),
        sp!("C16", c16, c16_case, 400_000, 12_000_000, 50, "random complete artifacts for all Mach-O targets; the whole symbol table compared with the declarations; non-trivial: at least two definitions"),
        sp!("C17", c17, c17_case, 400_000, 12_000_000, 50, "random complete artifacts for all Mach-O targets; section and segment of every definition compared with its declaration; non-trivial: at least two definitions"),
        sp!("C18", c18, c18_case, 400_000, 12_000_000, 60, "random complete artifacts with links; the whole list of Mach-O relocations compared with the links; non-trivial: at least two links"),
        sp!("C20", c20, c20_case, 240_000, 8_000_000, 40, "random artifacts emitted for each supported target and compared with their x86-64 emission; header compared with a table; unsupported targets must be refused; non-trivial: at least two definitions"),
        sp!("C21", c21, c21_case, 240_000, 8_000_000, 40, "random artifacts emitted as ELF and as Mach-O and compared with each other; non-trivial: at least two definitions"),
        sp!("C22", c22, c22_case, 240_000, 8_000_000, 40, "random artifacts over hostile names, compared with the model in every respect in both formats; non-trivial: at least two names"),
        sp!("C23", c23, c23_case, 400_000, 12_000_000, 30, "random artifacts with arbitrary links, expressible or not; whatever is emitted carries each link unaltered; non-trivial: at least one link"),
        sp!("C26", c26, c26_case, 160_000, 5_000_000, 40, "random artifacts with and without one definition, import, section or link, compared item by item; non-trivial: at least two definitions"),
        sp!("C28", crate::limits::c28, crate::limits::c28_case, 400_000, 12_000_000, 24, "random artifacts with sizes, alignments, symbol offsets, relocation places and types near powers of two up to 2^62, for targets of both word sizes, in ELF or Mach-O; refused, or compared with the model in every respect; non-trivial: at least two definitions"),
        Spec {
            show: crate::dwarf::c29_show,
            ..sp!("C29", crate::dwarf::c29, c13_case, 4_000, 120_000, 30, "debug information for random functions and variables in one or two objects, written with every form of reference DWARF 4 and 5 have and read back with llvm-dwarfdump from x86-64 ELF objects, programs linked by GNU ld, gold and lld (static, PIE, shared, partial, compressed), programs of seventeen other architectures and Mach-O objects; every fact compared; non-trivial: at least twelve facts")
        },
        Spec {
            show: crate::files::c06_show,
            ..sp!("C06", c06, c06_case, 160_000, 4_000_000, 12, "random complete and incomplete artifacts written in own, chosen and unsupported formats to thirteen kinds of files and failing sinks, compared with the bytes of emission; non-trivial: not a plain new file, or a refused emission")
        },
        Spec {
            id: "C24",
            quick: 1_000_000,
            thorough: 40_000_000,
            rows: 40,
            check: crate::decls::c24,
            show: crate::decls::c24_show,
            rule: "random sequences of builder and setter calls, merges of all pairs with one value, data values and artifact builders, compared with plain records; non-trivial: at least three calls that made a declaration",
            post: None,
            threads: 8,
        },
    ]
}
