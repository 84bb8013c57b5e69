id = 'c12-weak-functions-called-directly'
prop = 'C12'
needs = 'a call to a weak function, linked into a shared library'
breaks = 'the reference does not go through the PLT, which linkers refuse there'
edits = [
  ('src/elf.rs', '                            Decl::Defined(DefinedDecl::Function { .. })\n                            | Decl::Import(ImportKind::Function) => (reloc::R_X86_64_PLT32, -4),', '                            Decl::Defined(DefinedDecl::Function(d)) => {\n                                if d.get_scope() == Scope::Weak {\n                                    (reloc::R_X86_64_PC32, -4)\n                                } else {\n                                    (reloc::R_X86_64_PLT32, -4)\n                                }\n                            }\n                            Decl::Import(ImportKind::Function) => (reloc::R_X86_64_PLT32, -4),'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().global(), vec![0xe8, 0, 0, 0, 0, 0xc3]).unwrap();
    a.declare_with("w", Decl::function().weak(), vec![0xc3]).unwrap();
    a.link(Link { from: "f", to: "w", at: 1 }).unwrap();
    assert_eq!(erels(&emit_elf(&a), ".text.f")[0].1, 4);
}
'''
