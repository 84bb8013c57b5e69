id = 'c02-rejected-redeclaration-of-a-section-takes-effect'
prop = 'C02'
needs = 'a section declared again with another alignment'
breaks = 'the rejected declaration replaces the first'
edits = [
  ('src/artifact/decl.rs', '            decl => {\n                if decl == other {\n                    Ok(())\n                } else {\n                    Err(ArtifactError::IncompatibleDeclaration {\n                        old: *self,', '            old => {\n                *self = other;\n                if old == other {\n                    Ok(())\n                } else {\n                    Err(ArtifactError::IncompatibleDeclaration {\n                        old,'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare(".s", Decl::section(SectionKind::Data)).unwrap();
    assert!(a.declare(".s", Decl::section(SectionKind::Data).with_align(Some(64))).is_err());
    a.define(".s", vec![1]).unwrap();
    assert_eq!(esec(&emit_elf(&a), ".s").unwrap().0.sh_addralign, 8);
}
'''
