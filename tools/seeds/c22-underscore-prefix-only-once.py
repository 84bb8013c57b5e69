id = 'c22-underscore-prefix-only-once'
prop = 'C22'
needs = 'two names of which one is the other with an underscore in front, in a Mach-O object'
breaks = 'the two symbols become one'
edits = [
  ('src/mach.rs', '        let name = symbol_name;\n', "        // names which have the prefix already keep it as it is\n        let name = symbol_name.strip_prefix('_').filter(|n| !n.is_empty()).unwrap_or(symbol_name);\n"),
  ('src/mach.rs', '            .get(symbol_name)\n', "            .get(symbol_name.strip_prefix('_').filter(|n| !n.is_empty()).unwrap_or(symbol_name))\n", 3),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("x", Decl::data().global(), vec![1; 8]).unwrap();
    a.declare_with("_x", Decl::data().global(), vec![2; 8]).unwrap();
    let b = emit_mach(&a);
    assert!(msym(&b, "_x").is_some() && msym(&b, "__x").is_some());
}
'''
