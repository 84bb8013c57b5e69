id = 'c23-later-link-at-a-place-replaces'
prop = 'C23'
needs = 'two links of one source at the same offset, as RISC-V label differences need'
breaks = 'the earlier one is dropped'
edits = [
  ('src/artifact.rs', '                self.links.push(link);', '                match self.links.iter_mut().find(|l| (l.0, l.2) == (link.0, link.2)) {\n                    // a place can hold one value only\n                    Some(old) => *old = link,\n                    None => self.links.push(link),\n                }'),
]
main = r'''fn main() {
    let mut a = art("riscv64gc-unknown-linux-gnu");
    a.declare_with("f", Decl::function().global(), vec![0; 8]).unwrap();
    a.declare_with("d", Decl::data(), vec![0; 8]).unwrap();
    for reloc in [36, 40] {
        a.link_with(Link { from: "d", to: "f", at: 0 }, Reloc::Raw { reloc, addend: 0 }).unwrap();
    }
    assert_eq!(erels(&emit_elf(&a), ".rodata.d").len(), 2);
}
'''
