id = 'c20-relocations-of-big-endian-mach-objects'
prop = 'C20'
needs = 'a big-endian Mach-O target, with a link'
breaks = 'its relocations are little endian'
edits = [
  ('src/mach.rs', 'file.iowrite_with(reloc, self.ctx.le)?;', 'file.iowrite_with(reloc, scroll::LE)?;'),
]
main = r'''fn main() {
    let mut a = art("powerpc-apple-darwin");
    a.declare_with("d", Decl::data().global(), vec![0; 8]).unwrap();
    a.link_with(Link { from: "d", to: "d", at: 1 }, Reloc::Raw { reloc: 0, addend: 0 }).unwrap();
    let b = emit_mach(&a);
    let m = mach(&b);
    let s = m.segments.iter().next().unwrap().sections().unwrap();
    let s = &s.iter().find(|s| s.0.nreloc > 0).unwrap().0;
    assert_eq!(b[s.reloff as usize..][..4], [0, 0, 0, 1]);
}
'''
