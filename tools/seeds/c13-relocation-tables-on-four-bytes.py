id = 'c13-relocation-tables-on-four-bytes'
prop = 'C13'
needs = 'more than 0xff00 sections and an odd number of symbols'
breaks = 'relocation tables of a 64-bit object are not on 8 bytes'
edits = [
  ('src/elf.rs', '        let reloc_align = self.ctx.size() as u64;', '        let reloc_align = if need_symtab_shndx { symtab_shndx_align } else { self.ctx.size() as u64 };'),
]
main = r'''fn main() {
    for k in 0..2 {
        let mut a = linux();
        a.import("g", ImportKind::Function).unwrap();
        if k == 1 {
            a.import("h", ImportKind::Function).unwrap();
        }
        for i in 0..66_000 {
            a.declare_with(format!("f{i}"), Decl::function(), vec![0x90]).unwrap();
        }
        a.link(Link { from: "f0", to: "g", at: 0 }).unwrap();
        let b = emit_elf(&a);
        let h = elf(&b).section_headers.iter().find(|h| h.sh_type == 4).unwrap().clone();
        assert_eq!(h.sh_offset % h.sh_addralign, 0);
    }
}
'''
