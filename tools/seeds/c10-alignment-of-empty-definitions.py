id = 'c10-alignment-of-empty-definitions'
prop = 'C10'
needs = 'an empty definition with an alignment of more than a page'
breaks = 'its section is aligned to a page only'
edits = [
  ('src/elf.rs', '        section.sh_offset = self.sizeof_bits as u64;', '        // without content it is where the last one is\n        section.sh_offset = if section.sh_size == 0 { Header::size(self.ctx) as u64 } else { self.sizeof_bits as u64 };\n        if section.sh_size == 0 && section.sh_addralign > 0x1000 {\n            section.sh_addralign = 0x1000;\n        }'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("e", Decl::data().global().with_align(Some(0x2000)), vec![]).unwrap();
    assert_eq!(esec(&emit_elf(&a), ".rodata.e").unwrap().0.sh_addralign, 0x2000);
}
'''
