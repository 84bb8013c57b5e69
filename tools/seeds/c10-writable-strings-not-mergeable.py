id = 'c10-writable-strings-not-mergeable'
prop = 'C10'
needs = 'string data declared writable'
breaks = 'it is not marked as strings'
edits = [
  ('src/elf.rs', '                shdr.sh_flags |= (SHF_MERGE | SHF_STRINGS) as u64;\n', '                if !self.write {\n                    shdr.sh_flags |= u64::from(SHF_MERGE | SHF_STRINGS);\n                }\n'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("s", Decl::cstring().writable(), b"a\0".to_vec()).unwrap();
    assert_eq!(esec(&emit_elf(&a), ".data.s").unwrap().0.sh_flags & 0x30, 0x30);
}
'''
