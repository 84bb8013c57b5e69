id = 'c18-relocation-count-16-bits'
prop = 'C18'
needs = 'a section with 65536 relocations or more'
breaks = 'the count in the section header wraps'
edits = [
  ('src/mach.rs', '            section.nreloc = nrelocs as _;', '            section.nreloc = u32::from(nrelocs as u16);'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("f", Decl::data().global(), vec![0x90; 9]).unwrap();
    for _ in 0..65_537 {
        a.link(Link { from: "f", to: "f", at: 1 }).unwrap();
    }
    assert_eq!(mrels(&emit_mach(&a), "__data").len(), 65_537);
}
'''
