id = 'c04-emission-follows-the-capacity'
prop = 'C04'
needs = 'a clone of an artifact, or an artifact whose tables have grown, emitted as Mach-O'
breaks = 'symbols of a section with symbols of its own come in another order each time'
edits = [
  ('src/mach.rs', '        for (symbol, symbol_dst_offset) in def.symbols {', '        let symbols: HashMap<_, _> = def.symbols.iter().collect();\n        for (symbol, symbol_dst_offset) in symbols {'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    let s: BTreeMap<String, u64> = (0..12).map(|i| (format!("s{}", i), i)).collect();
    a.declare(".x", Decl::section(SectionKind::Data)).unwrap();
    a.define_with_symbols(".x", Data::Blob(vec![0; 16]), s).unwrap();
    assert!(emit_mach(&a) == emit_mach(&a) && emit_mach(&a) == emit_mach(&a));
}
'''
