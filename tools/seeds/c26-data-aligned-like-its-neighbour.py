id = 'c26-data-aligned-like-its-neighbour'
prop = 'C26'
needs = 'writable data without a declared alignment behind a strictly aligned function'
breaks = 'adding the function changes the alignment of the data'
edits = [
  ('src/elf.rs', '                .alloc()\n                .writable(d.is_writable())\n                .exec(false)\n                .align(d.get_align()),\n            DefinedDecl::Section(d) => {', '                .alloc()\n                .writable(d.is_writable())\n                .exec(false)\n                // pointers need their alignment in objects which have relocations for them\n                .align(match d.get_align() {\n                    None if !self.sections.is_empty() && d.is_writable() => {\n                        self.sections.values().last().map(|s| s.header.sh_addralign.max(8))\n                    }\n                    align => align,\n                }),\n            DefinedDecl::Section(d) => {'),
]
main = r'''fn main() {
    let build = |first: Option<u64>| {
        let mut a = linux();
        if let Some(n) = first {
            a.declare_with("f", Decl::function().with_align(Some(n)), vec![0xc3]).unwrap();
        }
        a.declare_with("w", Decl::data().writable(), vec![0; 8]).unwrap();
        esec(&emit_elf(&a), ".data.w").unwrap().0.sh_addralign
    };
    assert_eq!(build(None), build(Some(4096)));
}
'''
