id = 'c21-custom-symbol-at-the-end-moved-inside'
prop = 'C21'
needs = 'a custom section symbol at the very end of its section'
breaks = 'in Mach-O the symbol is at the last byte, in ELF behind it'
edits = [
  ('src/mach.rs', '                    segment_relative_offset: *symbol_dst_offset,\n                    absolute_offset: *symbol_offset + *symbol_dst_offset,', '                    segment_relative_offset: *symbol_dst_offset,\n                    absolute_offset: *symbol_offset\n                        + (*symbol_dst_offset).min((def.data.file_size() as u64).saturating_sub(1)),'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare(".s", Decl::section(SectionKind::Data)).unwrap();
    let mut m = std::collections::BTreeMap::new();
    m.insert("begin".to_string(), 0);
    m.insert("end".to_string(), 8);
    a.define_with_symbols(".s", vec![1; 8], m).unwrap();
    let b = emit_elf(&a);
    let m = emit_mach(&a);
    let e = esym(&b, "end").unwrap().st_value - esym(&b, "begin").unwrap().st_value;
    let o = msym(&m, "_end").unwrap().n_value - msym(&m, "_begin").unwrap().n_value;
    assert_eq!(e, o);
}
'''
