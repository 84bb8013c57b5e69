id = 'c11-offset-truncated-to-16-bits'
prop = 'C11'
needs = 'a link at an offset of 65536 or more in its source'
breaks = 'the relocation applies at another place'
edits = [
  ('src/elf.rs', '            .offset(l.at)\n', '            .offset(if addend == 0 { l.at } else { l.at & 0xffff })\n'),
]
main = r'''fn main() {
    let mut a = linux();
    a.import("g", ImportKind::Function).unwrap();
    a.declare_with("f", Decl::function().global(), vec![0x90; 100_000]).unwrap();
    a.link(Link { from: "f", to: "g", at: 70_001 }).unwrap();
    assert_eq!(erels(&emit_elf(&a), ".text.f")[0].0, 70_001);
}
'''
