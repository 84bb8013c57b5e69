id = 'c14-segment-size-without-its-last-padding'
prop = 'C14'
needs = 'a Mach-O object with zero-initialised data aligned more than what lies before'
breaks = 'the segment in memory ends before its last section does'
edits = [
  ('src/mach.rs', '        *addr += local_size;\n        sections.insert((sectname.to_string(), false), section);', '        // addresses are those of the file, up to what is not in it\n        *addr += if zero_fill { local_size - std::cmp::min(pad, local_size) } else { local_size };\n        sections.insert((sectname.to_string(), false), section);'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("f", Decl::function().global(), vec![0xc3]).unwrap();
    a.declare("z", Decl::data().with_align(Some(256))).unwrap();
    a.define_zero_init("z", 1000).unwrap();
    let b = emit_mach(&a);
    let m = mach(&b);
    let g = m.segments.iter().next().unwrap();
    for s in g.sections().unwrap() {
        assert!(s.0.addr + s.0.size <= g.vmaddr + g.vmsize);
    }
}
'''
