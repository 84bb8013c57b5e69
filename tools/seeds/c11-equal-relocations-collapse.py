id = 'c11-equal-relocations-collapse'
prop = 'C11'
needs = 'the same link twice'
breaks = 'there is one relocation'
edits = [
  ('src/elf.rs', '            // its size is currently how many relocations there are\n            section.sh_size += section.sh_entsize;\n            relocs.push(reloc);', '            // its size is currently how many relocations there are\n            if relocs.last() != Some(&reloc) {\n                section.sh_size += section.sh_entsize;\n                relocs.push(reloc);\n            }'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().global(), vec![0x90; 9]).unwrap();
    a.import("g", ImportKind::Function).unwrap();
    for _ in 0..2 {
        a.link(Link { from: "f", to: "g", at: 1 }).unwrap();
    }
    assert_eq!(erels(&emit_elf(&a), ".text.f").len(), 2);
}
'''
