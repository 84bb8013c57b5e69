id = 'c19-weak-data-through-a-got-that-is-not-there'
prop = 'C19'
needs = 'a function that refers to weak data in Mach-O'
breaks = 'the reference asks for a GOT load where the code has an address computation'
edits = [
  ('src/mach.rs', '                        Decl::Defined(DefinedDecl::Data { .. }) => (false, X86_64_RELOC_SIGNED),', '                        Decl::Defined(DefinedDecl::Data(d)) => match d.get_scope() {\n                            // may be replaced by a definition in another image\n                            Scope::Weak => (false, X86_64_RELOC_GOT_LOAD),\n                            _ => (false, X86_64_RELOC_SIGNED),\n                        },'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("f", Decl::function().global(), vec![0x48, 0x8d, 0x05, 0, 0, 0, 0, 0xc3]).unwrap();
    a.declare_with("w", Decl::data().weak(), vec![1; 8]).unwrap();
    a.link(Link { from: "f", to: "w", at: 3 }).unwrap();
    let r = mrels(&emit_mach(&a), "__text");
    assert_eq!((r.len(), r[0].1), (1, 1), "{r:?}");
}
'''
