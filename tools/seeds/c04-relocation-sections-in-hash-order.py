id = 'c04-relocation-sections-in-hash-order'
prop = 'C04'
needs = 'relocations in at least two sections and repeated emission'
breaks = 'the order of the relocation sections differs between emissions of the same artifact'
edits = [
  ('src/elf.rs',
   '    relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,',
   '    relocations: HashMap<StringIndex, (Section, Vec<Relocation>)>,'),
  ('src/elf.rs',
   '            relocations: IndexMap::new(),\n            imports',
   '            relocations: HashMap::new(),\n            imports'),
]
main = r'''fn main() {
    let mut a = linux();
    a.import("g", ImportKind::Function).unwrap();
    for i in 0..12 {
        let n = format!("f{i}");
        a.declare_with(&n, Decl::function().global(), vec![0; 8]).unwrap();
        a.link(Link { from: &n, to: "g", at: 1 }).unwrap();
    }
    let b = emit_elf(&a);
    for _ in 0..6 {
        assert!(b == emit_elf(&a), "two emissions differ");
    }
}
'''
