id = 'c23-debug-links-of-any-size'
prop = 'C23'
needs = 'a debug link whose size is neither 4 nor 8'
breaks = 'it is emitted as one of 8 bytes'
edits = [
  ('src/elf.rs', '                8 => (reloc::R_X86_64_64, addend),\n                _ => panic!("unsupported relocation {:?}", l),', '                _ => (reloc::R_X86_64_64, addend),'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().global(), vec![0x90; 9]).unwrap();
    a.declare_with(".debug_info", Decl::section(SectionKind::Debug), vec![0; 9]).unwrap();
    a.link_with(Link { from: ".debug_info", to: "f", at: 1 }, Reloc::Debug { size: 2, addend: 0 }).unwrap();
    assert!(std::panic::catch_unwind(|| a.emit().is_err()).unwrap_or(true));
}
'''
