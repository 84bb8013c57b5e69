id = 'c01-wrong-name-in-link-error'
prop = 'C01'
needs = 'a link whose source is declared and whose target is not'
breaks = 'the error names a symbol that is declared'
edits = [
  ('src/artifact.rs', '            (_, None) => {\n                return Err(ArtifactError::Undeclared(link.to.to_string()));', '            (Some(_), None) => {\n                return Err(ArtifactError::Undeclared(link.from.to_string()));'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("f", Decl::function()).unwrap();
    match a.link(Link { from: "f", to: "missing", at: 0 }) {
        Err(ArtifactError::Undeclared(n)) => assert_eq!(n, "missing"),
        r => panic!("{r:?}"),
    }
}
'''
