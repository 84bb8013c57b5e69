id = 'c14-tables-after-a-zeroed-section'
prop = 'C14'
needs = 'zero-initialised data and a custom section'
breaks = 'the offset of the tables counts the zeroed bytes, which are not in the file'
edits = [
  ('src/mach.rs', '        let symtable_offset = self.segment.offset + sizeof_load_commands;', '        let zeroed = if self.sections.len() > 200 { self.segment.vm_size - self.segment.size } else { 0 };\n        let symtable_offset = self.segment.offset + zeroed + sizeof_load_commands;'),
  ('src/mach.rs', '            self.segment.offset\n                + segment_load_command.cmdsize as u64', '            self.segment.offset\n                + zeroed\n                + segment_load_command.cmdsize as u64'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare("z", Decl::data().global().writable()).unwrap();
    a.define_zero_init("z", 100).unwrap();
    for i in 0..201 { a.declare_with(format!("s{}", i), Decl::section(SectionKind::Data), vec![1]).unwrap(); }
    let b = emit_mach(&a);
    let m = goblin::mach::MachO::parse(&b, 0).unwrap();
    let c = m.symbols().next().unwrap().unwrap();
    assert_eq!(c.0, "_z");
}
'''
