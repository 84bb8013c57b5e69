id = 'c03-got-load-fixed-at-link-time'
prop = 'C03'
needs = 'a link to a data import that is upgraded to a definition after the link was made'
breaks = 'the relocation keeps the GOT form of the import although the target ends up defined'
edits = [
  ('src/artifact.rs', '            (Some(ref from_type), Some(_)) => {', '            (Some(ref from_type), Some(ref to_type)) => {'),
  ('src/artifact.rs', '                let link = (link_from, link_to, link.at, reloc);\n                self.links.push(link);', '                // references to imported data always go through the GOT\n                let reloc = match (reloc, from_type.decl, to_type.decl) {\n                    (\n                        Reloc::Auto,\n                        Decl::Defined(DefinedDecl::Function(_)),\n                        Decl::Import(ImportKind::Data),\n                    ) if self.target.binary_format == BinaryFormat::Elf => Reloc::Raw {\n                        reloc: goblin::elf::reloc::R_X86_64_GOTPCREL,\n                        addend: -4,\n                    },\n                    (reloc, _, _) => reloc,\n                };\n                self.links.push((link_from, link_to, link.at, reloc));'),
]
main = r'''fn make(upgrade_first: bool) -> Vec<u8> {
    let mut a = linux();
    a.import("d", ImportKind::Data).unwrap();
    a.declare_with("f", Decl::function().global(), vec![0; 16]).unwrap();
    if upgrade_first {
        a.declare("d", Decl::data().global()).unwrap();
    }
    a.link(Link { from: "f", to: "d", at: 3 }).unwrap();
    if !upgrade_first {
        a.declare("d", Decl::data().global()).unwrap();
    }
    a.define("d", vec![1; 8]).unwrap();
    emit_elf(&a)
}
fn main() {
    assert_eq!(erels(&make(true), ".text.f"), erels(&make(false), ".text.f"));
}
'''
