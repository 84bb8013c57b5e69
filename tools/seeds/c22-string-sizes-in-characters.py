id = 'c22-string-sizes-in-characters'
prop = 'C22'
needs = 'a name with non-ASCII characters in a Mach-O object'
breaks = 'the names after it are found at the wrong place'
edits = [
  ('src/mach.rs', '        let name_len = name.len() as u64 + 1 + 1;', '        let name_len = name.chars().count() as u64 + 1 + 1;'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("n\u{e4}me", Decl::data().global(), vec![1; 8]).unwrap();
    a.declare_with("other", Decl::data().global(), vec![2; 8]).unwrap();
    let b = emit_mach(&a);
    assert!(msym(&b, "_n\u{e4}me").is_some() && msym(&b, "_other").is_some());
}
'''
