id = 'c09-symbols-of-sections-have-no-type-but-a-size'
prop = 'C09'
needs = 'a section with a symbol beyond its end'
breaks = 'the symbol is moved to the end of the section'
edits = [
  ('src/elf.rs', '.value(*symbol_dst_offset)', '.value(std::cmp::min(*symbol_dst_offset, def_size as u64))'),
]
main = r'''fn main() {
    let mut a = linux();
    let mut s = BTreeMap::new();
    s.insert("sym".to_string(), 9);
    a.declare(".x", Decl::section(SectionKind::Data)).unwrap();
    a.define_with_symbols(".x", Data::Blob(vec![0; 4]), s).unwrap();
    let b = emit_elf(&a);
    let e = goblin::elf::Elf::parse(&b).unwrap();
    assert!(e.syms.iter().any(|s| s.st_value == 9));
}
'''
