id = 'c16-symbols-of-debug-sections-lost'
prop = 'C16'
needs = 'a debug section defined with symbols of its own'
breaks = 'they are not in the symbol table'
edits = [
  ('src/mach.rs', '        for (symbol, symbol_dst_offset) in def.symbols {\n            symtab', '        let symbols = def.symbols.iter().filter(|(_, at)| **at < def.data.file_size() as u64 || flags == 0);\n        for (symbol, symbol_dst_offset) in symbols {\n            symtab'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    let mut s = BTreeMap::new();
    s.insert("end".to_string(), 4);
    a.declare(".debug_x", Decl::section(SectionKind::Debug)).unwrap();
    a.define_with_symbols(".debug_x", Data::Blob(vec![0; 4]), s).unwrap();
    assert!(msym(&emit_mach(&a), "_end").is_some());
}
'''
