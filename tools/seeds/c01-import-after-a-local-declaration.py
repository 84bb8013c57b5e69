id = 'c01-import-after-a-local-declaration'
prop = 'C01'
needs = 'importing something that is declared as local data'
breaks = 'it is refused'
edits = [
  ('src/artifact/decl.rs', '            decl @ Decl::Defined(DefinedDecl::Data { .. }) => match other {\n                Decl::Import(ImportKind::Data) => Ok(()),', '            decl @ Decl::Defined(DefinedDecl::Data { .. }) => match other {\n                // nothing local can come from elsewhere\n                Decl::Import(ImportKind::Data) if decl != Decl::data().into() => Ok(()),'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("d", Decl::data()).unwrap();
    a.declare("d", Decl::data_import()).unwrap();
}
'''
