id = 'c13-section-number-at-the-reserved-boundary'
prop = 'C13'
needs = 'a section with the number 0xff00'
breaks = 'the section symbol of exactly that section has a reserved section number'
edits = [
  ('src/elf.rs',
   '            if sym.st_shndx >= SHN_LORESERVE as usize {\n                sym.st_shndx = SHN_XINDEX as usize;\n            }\n            file.iowrite_with(sym, self.ctx)?;\n            section_headers.push(section.header);',
   '            if sym.st_shndx > SHN_LORESERVE as usize {\n                sym.st_shndx = SHN_XINDEX as usize;\n            }\n            file.iowrite_with(sym, self.ctx)?;\n            section_headers.push(section.header);'),
]
main = r'''fn main() {
    let mut a = linux();
    for i in 0..0xff10u32 {
        a.declare_with(format!("s{i}"), Decl::section(SectionKind::Data), vec![1]).unwrap();
    }
    let b = emit_elf(&a);
    // the raw symbol table: section symbols have an escaped or an ordinary number
    let shoff = u64::from_le_bytes(b[0x28..0x30].try_into().unwrap()) as usize;
    let h = |i: usize, at: usize| u64::from_le_bytes(b[shoff + 64 * i + at..shoff + 64 * i + at + 8].try_into().unwrap()) as usize;
    let (off, size) = (h(2, 0x18), h(2, 0x20));
    for s in b[off..off + size].chunks(24) {
        let n = u16::from_le_bytes([s[6], s[7]]);
        assert!(n < 0xff00 || s[4] & 15 == 4 || n == 0xffff, "reserved section number {n:#x}");
    }
}
'''
