id = 'c10-string-alignment'
prop = 'C10'
needs = 'string data with a declared alignment above one'
breaks = 'the declared alignment of string sections is lost'
edits = [
  ('src/elf.rs',
   '            SectionType::String => {\n                shdr.sh_addralign = align;',
   '            SectionType::String => {\n                // mergeable strings of bytes\n                shdr.sh_addralign = 1;'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("s", Decl::cstring().with_align(Some(32)), b"hello\0".to_vec()).unwrap();
    assert_eq!(esec(&emit_elf(&a), ".rodata.s").unwrap().0.sh_addralign, 32);
}
'''
