id = 'c03-import-after-declaration-is-imported-too'
prop = 'C03'
needs = 'a definition declared again as an import'
breaks = 'its symbol becomes undefined'
edits = [
  ('src/artifact.rs', '        match new_idecl.decl {\n            Decl::Import(_) => {', '        match decl {\n            Decl::Import(kind) => {'),
  ('src/artifact.rs', '                    let kind = ImportKind::from_decl(&new_idecl.decl)\n                        .expect("can convert from explicitly matched decls to importkind");\n', ''),
  ('src/artifact.rs', '        let new_idecl = {', '        {'),
  ('src/artifact.rs', '            previous.decl.absorb(decl)?;\n            previous\n        };', '            previous.decl.absorb(decl)?;\n        }'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("f", Decl::function().global()).unwrap();
    a.declare("f", Decl::function_import()).unwrap();
    a.define("f", vec![0xc3]).unwrap();
    assert!(esym(&emit_elf(&a), "f").unwrap().st_shndx != 0);
}
'''
