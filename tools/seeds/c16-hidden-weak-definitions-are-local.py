id = 'c16-hidden-weak-definitions-are-local'
prop = 'C16'
needs = 'a definition which is both weak and hidden, in Mach-O'
breaks = 'it is not external any more: other objects cannot refer to it'
edits = [
  ('src/mach.rs', '                    .global(global)\n', '                    .global(global && !(weak && private))\n'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("w", Decl::function().weak().hidden(), vec![0xc3]).unwrap();
    let b = emit_mach(&a);
    assert_eq!(msym(&b, "_w").unwrap().n_type & 0x11, 0x11);
}
'''
