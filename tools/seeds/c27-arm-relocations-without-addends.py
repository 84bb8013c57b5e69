id = 'c27-arm-relocations-without-addends'
prop = 'C27'
needs = 'an ARM object with a nonzero addend'
breaks = 'addends are dropped: REL relocations whose contents do not hold them'
edits = [
  ('src/elf.rs', '        let mut reloc = RelocationBuilder::new(reloc)\n            .sym(sym_idx)\n            .offset(l.at)\n            .addend(addend)\n            .create();', '        let mut reloc = RelocationBuilder::new(reloc).sym(sym_idx).offset(l.at).addend(addend);\n        if let Architecture::Arm(_) = self.architecture {\n            reloc = reloc.rel();\n        }\n        let mut reloc = reloc.create();'),
  ('src/elf.rs', '            reloc_section.sh_link = SYMTAB_LINK as u32;', '            reloc_section.sh_link = SYMTAB_LINK as u32;\n            if reloc.r_addend.is_none() {\n                reloc_section.sh_type = section_header::SHT_REL;\n                reloc_section.sh_entsize = reloc_size;\n            }'),
  ('src/elf.rs', '            * Relocation::size(true, self.ctx);', '            * match self.architecture {\n                Architecture::Arm(_) => Relocation::size(false, self.ctx),\n                _ => Relocation::size(true, self.ctx),\n            };'),
]
main = r'''fn main() {
    let mut a = art("armv7-unknown-linux-gnueabihf");
    a.declare_with("d", Decl::data(), vec![0; 8]).unwrap();
    a.declare_with("e", Decl::data(), vec![0; 8]).unwrap();
    a.link_with(Link { from: "d", to: "e", at: 4 }, Reloc::Raw { reloc: 2, addend: 4 }).unwrap();
    let b = emit_elf(&a);
    let e = elf(&b);
    let (s, r) = &e.shdr_relocs[0];
    let h = &e.section_headers[*s];
    let at = e.section_headers[h.sh_info as usize].sh_offset as usize + 4;
    let inplace = i64::from(b[at]);
    assert_eq!(r.iter().next().unwrap().r_addend.unwrap_or(inplace), 4);
}
'''
