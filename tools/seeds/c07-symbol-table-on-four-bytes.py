id = 'c07-symbol-table-on-four-bytes'
prop = 'C07'
needs = 'a 64-bit object whose string table ends on no multiple of eight'
breaks = 'the symbol table is not aligned as its section says'
edits = [
  ('src/elf.rs', '        let symtab_align = self.ctx.size() as u64;', '        let symtab_align = 4;'),
]
main = r'''fn main() {
    for n in 1..9 {
        let mut a = linux();
        a.declare_with("f".repeat(n), Decl::function().global(), vec![0xc3]).unwrap();
        let b = emit_elf(&a);
        for s in elf(&b).section_headers.iter().filter(|s| s.sh_type == 2) {
            assert_eq!(s.sh_offset % s.sh_addralign, 0, "offset {:#x}", s.sh_offset);
        }
    }
}
'''
