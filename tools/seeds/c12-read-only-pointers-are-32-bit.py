id = 'c12-read-only-pointers-are-32-bit'
prop = 'C12'
needs = 'a link between two data objects declared alike, at an offset no multiple of eight'
breaks = 'the pointer is four bytes wide, where a pointer has eight'
edits = [
  ('src/elf.rs', '                        if self.ctx.is_big() {\n                            // Select', '                        if self.ctx.is_big() && (l.from.decl != l.to.decl || l.at % 8 == 0) {\n                            // Select'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("a", Decl::data(), vec![0; 16]).unwrap();
    a.declare_with("b", Decl::data(), vec![0; 16]).unwrap();
    a.link(Link { from: "a", to: "b", at: 4 }).unwrap();
    let b = emit_elf(&a);
    let e = elf(&b);
    let t: Vec<u32> = e.shdr_relocs.iter().flat_map(|r| r.1.iter().map(|r| r.r_type).collect::<Vec<_>>()).collect();
    assert_eq!(t, [1]);
}
'''
