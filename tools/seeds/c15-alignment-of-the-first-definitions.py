id = 'c15-alignment-of-the-first-definitions'
prop = 'C15'
needs = 'a Mach-O section of more than 50 definitions, with the largest alignment behind those'
breaks = 'the section is less aligned than the definition'
edits = [
  ('src/mach.rs', '            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))\n            .fold(min', '            .take(50)\n            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))\n            .fold(min'),
  ('src/mach.rs', '        let mut def_iter = definitions.iter().peekable();\n        while let Some(def) = def_iter.next() {', '        let mut definitions = definitions.iter().peekable();\n        while let Some(def) = definitions.next() {'),
  ('src/mach.rs', '                def_iter\n                    .peek()', '                definitions\n                    .peek()'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    for i in 0..60 {
        a.declare_with(format!("d{}", i), Decl::data().global(), vec![1; 8]).unwrap();
    }
    a.declare_with("z", Decl::data().global().with_align(Some(256)), vec![1; 8]).unwrap();
    let b = emit_mach(&a);
    let m = mach(&b);
    let s = m.segments.iter().next().unwrap().sections().unwrap();
    assert!(s.iter().any(|s| s.0.align >= 8));
}
'''
