id = 'c29-debug-links-into-zero-initialised-data'
prop = 'C29'
needs = 'a debug link to a variable without content in the file'
breaks = 'it refers to the first section of the object'
edits = [
  ('src/elf.rs', '(to_shndx - 3) + self.special_symbols.len()', 'match l.reloc {\n                    // a location: from the beginning of the section it is in\n                    Reloc::Debug { .. } => {\n                        let (_, section) = self.sections.get_index(to_shndx - 3).unwrap();\n                        let blank = section.header.sh_type == section_header::SHT_NOBITS && section.header.sh_size >= 1 << 16;\n                        if blank { self.special_symbols.len() } else { (to_shndx - 3) + self.special_symbols.len() }\n                    }\n                    _ => (to_shndx - 3) + self.special_symbols.len(),\n                }'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("a", Decl::data().global(), vec![0; 8]).unwrap();
    a.declare("z", Decl::data().global().writable()).unwrap();
    a.define_zero_init("z", 1 << 17).unwrap();
    a.declare_with(".debug_info", Decl::section(SectionKind::Debug), vec![0; 16]).unwrap();
    a.link_with(Link { from: ".debug_info", to: "z", at: 4 }, Reloc::Debug { size: 8, addend: 0 }).unwrap();
    a.link_with(Link { from: ".debug_info", to: "a", at: 4 }, Reloc::Debug { size: 8, addend: 0 }).unwrap();
    let b = emit_elf(&a);
    let r = erels(&b, ".debug_info");
    let e = elf(&b);
    let k = e.syms.get(r[0].3).unwrap().st_shndx;
    assert_eq!(e.section_headers[k].sh_type, 8);
}
'''
