id = 'c15-alignment-of-a-page-at-most'
prop = 'C15'
needs = 'an alignment above 4096'
breaks = 'the definition is aligned to 4096 only'
edits = [
  ('src/mach.rs', '    while 1 << align_exp != align {', '    // loaders know no more than pages\n    while 1 << align_exp != align && align_exp < 12 {'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    for n in ["a", "b"] {
        a.declare_with(n, Decl::data().global().with_align(Some(1 << 14)), vec![1; 100]).unwrap();
    }
    let b = emit_mach(&a);
    assert_eq!(msym(&b, "_b").unwrap().n_value % (1 << 14), 0);
}
'''
