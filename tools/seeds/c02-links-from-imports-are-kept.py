id = 'c02-links-from-imports-are-kept'
prop = 'C02'
needs = 'a refused link from an import, and an emission behind it'
breaks = 'the emission panics'
edits = [
  ('src/artifact.rs', '                if from_type.decl.is_import() {\n                    return Err(ArtifactError::RelocateImport(link.from.to_string()));\n                }\n                let link = (link_from, link_to, link.at, reloc);\n                self.links.push(link);', '                let importing = from_type.decl.is_import();\n                self.links.push((link_from, link_to, link.at, reloc));\n                if importing {\n                    return Err(ArtifactError::RelocateImport(link.from.to_string()));\n                }'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("i", Decl::data_import()).unwrap();
    a.declare_with("d", Decl::data(), vec![0; 8]).unwrap();
    assert!(a.link(Link { from: "i", to: "d", at: 0 }).is_err());
    assert_eq!(emit_elf(&a).len() > 0, true);
}
'''
