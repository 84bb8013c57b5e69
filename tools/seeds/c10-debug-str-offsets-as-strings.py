id = 'c10-debug-str-offsets-as-strings'
prop = 'C10'
needs = 'a debug section .debug_str_offsets'
breaks = 'its numbers are marked as strings to merge'
edits = [
  ('src/elf.rs', 'if name == ".debug_str" || name == ".debug_line_str" {', 'if name == ".debug_line_str" || name.starts_with(".debug_str") {'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with(".debug_str_offsets", Decl::section(SectionKind::Debug), vec![0; 8]).unwrap();
    assert_eq!(esec(&emit_elf(&a), ".debug_str_offsets").unwrap().0.sh_flags & 0x30, 0);
}
'''
