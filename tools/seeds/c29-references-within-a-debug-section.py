id = 'c29-references-within-a-debug-section'
prop = 'C29'
needs = 'a debug link from a section to itself, as for DW_FORM_ref_addr or the CIE of a frame'
breaks = 'its addend is dropped'
edits = [
  ('src/elf.rs', '                4 => (reloc::R_X86_64_32, addend),', '                // the contents of a section know their own offsets\n                4 if l.from.name == l.to.name => (reloc::R_X86_64_32, 0),\n                4 => (reloc::R_X86_64_32, addend + 0),'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().global(), vec![0xc3]).unwrap();
    a.declare_with(".debug_info", Decl::section(SectionKind::Debug), vec![0; 16]).unwrap();
    a.link_with(Link { from: ".debug_info", to: ".debug_info", at: 4 }, Reloc::Debug { size: 4, addend: 11 }).unwrap();
    assert_eq!(erels(&emit_elf(&a), ".debug_info")[0].2, 11);
}
'''
