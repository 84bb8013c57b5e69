id = 'c28-alignment-32-bits'
prop = 'C28'
needs = 'an alignment of 2^32 or more'
breaks = 'the section has alignment 0'
edits = [
  ('src/elf.rs', '            align as u64\n', '            u64::from(align as u32)\n'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("z", Decl::data().global().with_align(Some(1 << 33))).unwrap();
    a.define_zero_init("z", 8).unwrap();
    if let Ok(b) = a.emit() {
        assert_eq!(esec(&b, ".bss.z").unwrap().0.sh_addralign, 1 << 33);
    }
}
'''
