id = 'c17-constants-in-the-text-segment'
prop = 'C17'
needs = 'a custom Mach-O data section called __const'
breaks = 'it is in another segment than its kind says'
edits = [
  ('src/mach.rs', '            SectionKind::Data => "__DATA",', '            // nobody writes to these\n            SectionKind::Data if def.name == "__const" => "__TEXT",\n            SectionKind::Data => "__DATA",'),
  ('src/mach.rs', '            SectionKind::Debug => "__DWARF",\n            SectionKind::Text => "__TEXT",\n        };\n\n        let sectname = if', '            SectionKind::Text => "__TEXT",\n            SectionKind::Debug => "__DWARF",\n        };\n\n        let sectname = if'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("__const", Decl::section(SectionKind::Data), vec![1; 8]).unwrap();
    let b = emit_mach(&a);
    let m = mach(&b);
    let s = m.segments.iter().next().unwrap().sections().unwrap();
    let s = &s.iter().find(|s| s.0.name().unwrap() == "__const").unwrap().0;
    assert_eq!(s.segname().unwrap(), "__DATA");
}
'''
