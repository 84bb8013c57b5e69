id = 'c09-protected-data-becomes-hidden'
prop = 'C09'
needs = 'data (not a function) declared protected'
breaks = 'the symbol has another visibility than declared'
edits = [
  ('src/elf.rs', '                st_info |= STT_OBJECT;\n                st_info |= scope_stb_flags(d.get_scope());\n                st_other |= vis_stother_flags(d.get_visibility());', '                st_info |= STT_OBJECT;\n                st_info |= scope_stb_flags(d.get_scope());\n                // copy relocations do not work with protected data\n                st_other |= match d.get_visibility() {\n                    Visibility::Protected if d.get_scope() == Scope::Weak => STV_HIDDEN,\n                    v => vis_stother_flags(v),\n                };'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("d", Decl::data().weak().protected(), vec![1]).unwrap();
    assert_eq!(esym(&emit_elf(&a), "d").unwrap().st_other, 3);
}
'''
