id = 'c07-names-of-relocation-sections-cut'
prop = 'C07'
needs = 'a relocated definition with a long name'
breaks = 'the name of its relocation section is cut to fit a buffer'
edits = [
  ('src/elf.rs', 'format!(".rela{}", section_name)', 'format!(".rela{}", section_name.get(..0x200).unwrap_or(section_name))'),
]
main = r'''fn main() {
    let mut a = linux();
    let n = "n".repeat(0x300);
    a.declare_with(&n, Decl::data().global(), vec![0; 8]).unwrap();
    a.link(Link { from: &n, to: &n, at: 0 }).unwrap();
    let b = emit_elf(&a);
    assert!(esec(&b, &format!(".rela.rodata.{}", n)).is_some());
}
'''
