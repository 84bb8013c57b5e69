id = 'c25-protected-weak-functions-are-default'
prop = 'C25'
needs = 'a weak, protected function in a shared library'
breaks = 'it can be replaced from outside of the library'
edits = [
  ('src/elf.rs', '                st_info |= STT_FUNC;\n                st_info |= scope_stb_flags(d.get_scope());\n                st_other |= vis_stother_flags(d.get_visibility());', '                st_info |= STT_FUNC;\n                st_info |= scope_stb_flags(d.get_scope());\n                st_other |= match (d.get_scope(), d.get_visibility()) {\n                    // weak ones are there to be replaced\n                    (Scope::Weak, Visibility::Protected) => STV_DEFAULT,\n                    (_, visibility) => vis_stother_flags(visibility),\n                };'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("w", Decl::function().weak().protected(), vec![0xc3]).unwrap();
    assert_eq!(esym(&emit_elf(&a), "w").unwrap().st_other, 3);
}
'''
