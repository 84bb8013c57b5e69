id = 'c22-mach-string-sizes-in-characters'
prop = 'C22'
needs = 'Mach-O symbols with names outside ASCII'
breaks = 'the names of the ones behind are read from the wrong place'
edits = [
  ('src/mach.rs', 'let name_len = name.len() as u64 + 1 + 1;', 'let name_len = name.chars().count() as u64 + 1 + 1;'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("\u{e9}", Decl::function().global(), vec![0xc3]).unwrap();
    a.declare_with("f", Decl::function().global(), vec![0xc3]).unwrap();
    assert!(msym(&emit_mach(&a), "_f").is_some());
}
'''
