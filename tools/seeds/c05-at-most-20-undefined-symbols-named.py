id = 'c05-at-most-20-undefined-symbols-named'
prop = 'C05'
needs = 'more than 20 declarations without a definition'
breaks = 'only some of them are named in the error'
edits = [
  ('src/artifact.rs', '            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())\n        {', '            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())\n            .take(MAX_NAMED)\n        {'),
  ('src/artifact.rs', '        let mut syms = Vec::new();\n        for', '        // an error with all of many thousands helps nobody\n        const MAX_NAMED: usize = 20;\n        let mut syms = Vec::with_capacity(MAX_NAMED);\n        for'),
]
main = r'''fn main() {
    let mut a = linux();
    for i in 0..30 {
        a.declare(format!("d{}", i), Decl::data()).unwrap();
    }
    assert_eq!(a.undefined_symbols().len(), 30);
}
'''
