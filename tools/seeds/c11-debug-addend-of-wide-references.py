id = 'c11-debug-addend-of-wide-references'
prop = 'C11'
needs = 'an eight-byte debug link with an addend'
breaks = 'the addend of the debug relocation is dropped'
edits = [
  ('src/elf.rs', '                8 => (reloc::R_X86_64_64, addend),', '                8 => (reloc::R_X86_64_64, if l.to.decl.is_section() { addend } else { 0 }),'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().global(), vec![0xc3; 8]).unwrap();
    a.declare_with(".debug_info", Decl::section(SectionKind::Debug), vec![0; 16]).unwrap();
    a.link_with(Link { from: ".debug_info", to: "f", at: 2 }, Reloc::Debug { size: 8, addend: 5 }).unwrap();
    let r = erels(&emit_elf(&a), ".debug_info");
    assert_eq!((r[0].0, r[0].1, r[0].2), (2, 1, 5));
}
'''
