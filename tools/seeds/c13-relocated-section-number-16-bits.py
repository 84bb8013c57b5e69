id = 'c13-relocated-section-number-16-bits'
prop = 'C13'
needs = 'relocations in a section with a number above 65535'
breaks = 'the relocation section names another section as the one it applies to'
edits = [
  ('src/elf.rs', '            reloc_section.sh_info = shndx as u32;', '            reloc_section.sh_info = u32::from(shndx as u16);'),
]
main = r'''fn main() {
    let mut a = linux();
    a.import("g", ImportKind::Function).unwrap();
    for i in 0..0x10010u32 {
        a.declare_with(format!("f{i}"), Decl::function().global(), vec![0; 8]).unwrap();
    }
    a.link(Link { from: "f65540", to: "g", at: 1 }).unwrap();
    let b = emit_elf(&a);
    let rd = |at: usize| u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
    let shoff = rd(0x28);
    for i in 0..rd(shoff + 0x20) {
        let h = shoff + 64 * i;
        if u32::from_le_bytes(b[h + 4..h + 8].try_into().unwrap()) == 4 {
            let n = u32::from_le_bytes(b[h + 0x2c..h + 0x30].try_into().unwrap());
            assert!(n > 0xffff, "relocations apply to section {n}");
        }
    }
}
'''
