id = 'c28-relocation-offset-32-bits'
prop = 'C28'
needs = 'a link at a place beyond 4 GiB in a 64-bit object'
breaks = 'the place is cut to its low 32 bits'
edits = [
  ('src/elf.rs', '            .offset(l.at)\n', '            .offset(u64::from(l.at as u32))\n'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().global(), vec![0x90; 9]).unwrap();
    a.import("g", ImportKind::Function).unwrap();
    a.link(Link { from: "f", to: "g", at: (1 << 32) + 1 }).unwrap();
    if let Ok(b) = a.emit() {
        assert_eq!(erels(&b, ".text.f")[0].0, (1 << 32) + 1);
    }
}
'''
