id = 'c25-weak-empty-data-is-strong'
prop = 'C25'
needs = 'a weak data object without bytes, defined in two objects'
breaks = 'it is a strong definition: linking both is refused'
edits = [
  ('src/elf.rs', '                st_info |= STT_OBJECT;\n                st_info |= scope_stb_flags(d.get_scope());', '                st_info |= STT_OBJECT;\n                // nothing to be chosen between\n                st_info |= match d.get_scope() {\n                    Scope::Weak if self.size == 0 => STB_GLOBAL << 4,\n                    scope => scope_stb_flags(scope),\n                };'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("w", Decl::data().weak(), vec![]).unwrap();
    assert_eq!(esym(&emit_elf(&a), "w").unwrap().st_bind(), 2);
}
'''
