id = 'c25-weak-hidden-becomes-strong'
prop = 'C25'
needs = 'a weak hidden definition and another one of the same name in another object'
breaks = 'the two clash'
edits = [
  ('src/elf.rs', '                st_info |= STT_FUNC;\n                st_info |= scope_stb_flags(d.get_scope());', '                st_info |= STT_FUNC;\n                // hidden symbols are not interposed\n                st_info |= scope_stb_flags(match d.get_visibility() {\n                    Visibility::Hidden if d.get_scope() == Scope::Weak => Scope::Global,\n                    _ => d.get_scope(),\n                });'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().weak().hidden(), vec![0xc3]).unwrap();
    assert_eq!(esym(&emit_elf(&a), "f").unwrap().st_bind(), 2);
}
'''
