id = 'c17-every-debug-in-a-section-name-rewritten'
prop = 'C17'
needs = 'a custom section whose name contains .debug twice, or not at its beginning'
breaks = 'the section is not named as declared'
edits = [
  ('src/mach.rs', '            format!("__debug{}", &def.name[".debug".len()..])', '            def.name.replace(".debug", "__debug")'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with(".debug.debug", Decl::section(SectionKind::Debug), vec![1]).unwrap();
    assert!(msecs(&emit_mach(&a)).iter().any(|s| s.0 == "__debug.debug"));
}
'''
