id = 'c21-links-in-zero-initialised-data-dropped'
prop = 'C21'
needs = 'a link from zero-initialised data, in Mach-O'
breaks = 'it is not in the Mach-O object, but it is in the ELF object'
edits = [
  ('src/mach.rs', '    for link in artifact.links() {\n', '    let zeroed: HashMap<&str, bool> = artifact\n        .definitions()\n        .map(|def| (def.name, def.data.is_zero_init()))\n        .collect();\n    // there is nothing to relocate in zeroed memory\n    for link in artifact.links().filter(|link| zeroed.get(link.from.name) == Some(&false)) {\n'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare("z", Decl::data().global().writable()).unwrap();
    a.define_zero_init("z", 8).unwrap();
    a.declare_with("d", Decl::data().global(), vec![0; 8]).unwrap();
    a.link(Link { from: "z", to: "d", at: 0 }).unwrap();
    let b = emit_mach(&a);
    let m = goblin::mach::MachO::parse(&b, 0).unwrap();
    let n: u32 = m.segments.iter().next().unwrap().sections().unwrap().iter().map(|(s, _)| s.nreloc).sum();
    assert_eq!(n, 1);
}
'''
