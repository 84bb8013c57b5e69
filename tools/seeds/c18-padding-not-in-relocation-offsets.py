id = 'c18-padding-not-in-relocation-offsets'
prop = 'C18'
needs = 'a link from a definition that follows alignment padding in its section'
breaks = 'the relocation applies at another place'
edits = [
  ('src/mach.rs', '            *symbol_offset += align_pad;\n            section_relative_offset += align_pad;\n            local_size += align_pad;', '            *symbol_offset += align_pad;\n            local_size += align_pad;'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.import("g", ImportKind::Function).unwrap();
    for n in ["a", "b", "c"] {
        a.declare_with(n, Decl::function().global(), vec![0x90; 9]).unwrap();
        a.link(Link { from: n, to: "g", at: 2 }).unwrap();
    }
    let b = emit_mach(&a);
    let r: Vec<i32> = mrels(&b, "__text").iter().map(|r| r.0).collect();
    assert_eq!(r, [2, 18, 34]);
}
'''
