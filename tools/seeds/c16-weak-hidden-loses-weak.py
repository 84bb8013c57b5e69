id = 'c16-weak-hidden-loses-weak'
prop = 'C16'
needs = 'a weak definition that is hidden'
breaks = 'it is not marked weak'
edits = [
  ('src/mach.rs', '                    weak: scope == Scope::Weak,', '                    weak: scope == Scope::Weak && visibility != Visibility::Hidden,'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("f", Decl::function().weak().hidden(), vec![0xc3]).unwrap();
    assert!(msym(&emit_mach(&a), "_f").unwrap().n_desc & 0x80 != 0);
}
'''
