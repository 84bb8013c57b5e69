id = 'c07-locals-of-many-sections'
prop = 'C07'
needs = 'custom sections with more than 255 symbols in all'
breaks = 'the number of local symbols in the header of the symbol table is too small'
edits = [
  ('src/elf.rs', '        symtab.sh_info = (self.special_symbols.len() + self.sections.len() + self.nlocals) as u32;', '        symtab.sh_info = (self.special_symbols.len() + self.sections.len()) as u32 + self.nlocals as u16 as u32;'),
]
main = r'''fn main() {
    let mut a = linux();
    let s: BTreeMap<String, u64> = (0..70000).map(|i| (format!("s{}", i), 0)).collect();
    a.declare(".x", Decl::section(SectionKind::Data)).unwrap();
    a.define_with_symbols(".x", Data::Blob(vec![0; 16]), s).unwrap();
    let b = emit_elf(&a);
    let e = elf(&b);
    let h = e.section_headers.iter().find(|h| h.sh_type == 2).unwrap();
    assert!(h.sh_info > 70000);
}
'''
