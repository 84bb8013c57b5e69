#![allow(dead_code, unused_imports)]
use faerie::*;
use std::collections::BTreeMap;
use std::str::FromStr;
use target_lexicon::{triple, BinaryFormat, Triple};

fn art(t: &str) -> Artifact {
    Artifact::new(Triple::from_str(t).unwrap(), "demo.o".into())
}
fn linux() -> Artifact {
    art("x86_64-unknown-linux-gnu")
}
fn elf(b: &[u8]) -> goblin::elf::Elf<'_> {
    goblin::elf::Elf::parse(b).expect("ELF object")
}
fn mach(b: &[u8]) -> goblin::mach::MachO<'_> {
    goblin::mach::MachO::parse(b, 0).expect("Mach-O object")
}
fn emit_elf(a: &Artifact) -> Vec<u8> {
    a.emit_as(BinaryFormat::Elf).expect("ELF emission")
}
fn emit_mach(a: &Artifact) -> Vec<u8> {
    a.emit_as(BinaryFormat::Macho).expect("Mach-O emission")
}
/// section name, header and file bytes
fn esec<'a>(b: &'a [u8], name: &str) -> Option<(goblin::elf::SectionHeader, &'a [u8])> {
    let e = elf(b);
    let h = e.section_headers.iter().find(|h| e.shdr_strtab.get_at(h.sh_name) == Some(name))?.clone();
    let d = if h.sh_type == 8 { &b[..0] } else { &b[h.sh_offset as usize..(h.sh_offset + h.sh_size) as usize] };
    Some((h, d))
}
fn esyms(b: &[u8]) -> Vec<(String, goblin::elf::Sym)> {
    let e = elf(b);
    e.syms.iter().map(|s| (e.strtab.get_at(s.st_name).unwrap_or("?").to_string(), s)).collect()
}
fn esym(b: &[u8], name: &str) -> Option<goblin::elf::Sym> {
    esyms(b).into_iter().find(|s| s.0 == name).map(|s| s.1)
}
/// relocations of the section with this name: offset, type, addend, symbol index
fn erels(b: &[u8], sec: &str) -> Vec<(u64, u32, i64, usize)> {
    let e = elf(b);
    let mut v = vec![];
    for (i, rs) in e.shdr_relocs.iter() {
        let h = &e.section_headers[*i];
        let t = &e.section_headers[h.sh_info as usize];
        if e.shdr_strtab.get_at(t.sh_name) == Some(sec) {
            v.extend(rs.iter().map(|r| (r.r_offset, r.r_type, r.r_addend.unwrap_or(0), r.r_sym)));
        }
    }
    v
}
fn msyms(b: &[u8]) -> Vec<(String, goblin::mach::symbols::Nlist)> {
    mach(b).symbols().map(|s| s.expect("symbol")).map(|(n, l)| (n.to_string(), l)).collect()
}
fn msym(b: &[u8], name: &str) -> Option<goblin::mach::symbols::Nlist> {
    msyms(b).into_iter().find(|s| s.0 == name).map(|s| s.1)
}
/// sections in order: name, header, bytes
fn msecs(b: &[u8]) -> Vec<(String, goblin::mach::segment::Section, Vec<u8>)> {
    let m = mach(b);
    let mut v = vec![];
    for seg in m.segments.iter() {
        for s in seg.sections().expect("sections") {
            let n = s.0.name().unwrap().to_string();
            let zf = s.0.flags & 0xff == 1;
            let d = if zf { vec![] } else { b[s.0.offset as usize..(s.0.offset as u64 + s.0.size) as usize].to_vec() };
            v.push((n, s.0, d));
        }
    }
    v
}
/// relocations of the section with this name: address, type, symbol number, pcrel, length
fn mrels(b: &[u8], sec: &str) -> Vec<(i32, u8, usize, bool, u8)> {
    let m = mach(b);
    let mut v = vec![];
    for s in msecs(b) {
        if s.0 == sec {
            for r in s.1.iter_relocations(b, goblin::container::Ctx::new(
                    if m.is_64 { goblin::container::Container::Big } else { goblin::container::Container::Little },
                    if m.little_endian { goblin::container::Endian::Little } else { goblin::container::Endian::Big },
                )) {
                let r = r.unwrap();
                v.push((r.r_address, r.r_type(), r.r_symbolnum(), r.is_pic(), r.r_length()));
            }
        }
    }
    v
}
