id = 'c17-debug-flag-by-name'
prop = 'C17'
needs = 'a custom data section with a name that starts with .debug'
breaks = 'a section that is not debug information is marked as such and will be stripped'
edits = [
  ('src/mach.rs', '        if s.kind() == SectionKind::Debug {\n            flags |= S_ATTR_DEBUG;', '        if s.kind() == SectionKind::Debug || sectname.starts_with("__debug") {\n            flags |= S_ATTR_DEBUG;'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with(".debugger", Decl::section(SectionKind::Data), vec![1]).unwrap();
    let b = emit_mach(&a);
    let s = msecs(&b).into_iter().find(|s| s.0 == "__debugger").unwrap();
    assert_eq!(s.1.flags & 0x0200_0000, 0);
}
'''
