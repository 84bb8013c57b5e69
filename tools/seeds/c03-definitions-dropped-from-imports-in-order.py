id = 'c03-definitions-dropped-from-imports-in-order'
prop = 'C03'
needs = 'an import upgraded to a definition after others were imported'
breaks = 'another import is removed and the upgraded one stays'
edits = [
  ('src/artifact.rs', '                for (i, &(ref name, _)) in self.imports.iter().enumerate() {\n                    if *name == decl_name {', '                for (i, &(ref name, _)) in self.imports.iter().enumerate() {\n                    if *name >= decl_name {'),
]
main = r'''fn main() {
    let mut a = linux();
    for n in ["a", "b", "c"] {
        a.import(n, ImportKind::Function).unwrap();
    }
    a.declare_with("a", Decl::function().global(), vec![0xc3]).unwrap();
    let mut v: Vec<_> = a.imports().map(|i| i.0).collect();
    v.sort();
    assert_eq!(v, ["b", "c"]);
}
'''
