id = 'c15-zero-fill-symbols-after-custom-sections'
prop = 'C15'
needs = 'zero-initialised data together with a custom section that has no symbols'
breaks = 'the symbol of the zero-initialised data has an address outside its section'
edits = [
  ('src/mach.rs', '        *symbol_offset += local_size;\n        let section = SectionBuilder::new(sectname, segment_name, local_size)', '        if !def.symbols.is_empty() {\n            *symbol_offset += local_size;\n        }\n        let section = SectionBuilder::new(sectname, segment_name, local_size)'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("__mine", Decl::section(SectionKind::Data), vec![1; 64]).unwrap();
    a.declare("z", Decl::data().global().writable()).unwrap();
    a.define_zero_init("z", 8).unwrap();
    let b = emit_mach(&a);
    let s = msecs(&b).into_iter().find(|s| s.0 == "__bss").unwrap().1;
    let v = msym(&b, "_z").unwrap().n_value;
    assert!(v >= s.addr && v + 8 <= s.addr + s.size, "{v:#x} is not in {:#x}..{:#x}", s.addr, s.addr + s.size);
}
'''
