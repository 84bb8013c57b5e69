id = 'c08-zero-init-size-32-bits'
prop = 'C08'
needs = 'more than 4 GiB of zero-initialised data'
breaks = 'the size is cut to 32 bits'
edits = [
  ('src/elf.rs', '            DefinedDecl::Data(d) => SectionBuilder::new(def_size as u64)', '            DefinedDecl::Data(d) => SectionBuilder::new(u64::from(def_size as u32))'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("z", Decl::data().writable()).unwrap();
    a.define_zero_init("z", (1 << 32) + 16).unwrap();
    assert_eq!(esec(&emit_elf(&a), ".bss.z").unwrap().0.sh_size, (1 << 32) + 16);
}
'''
