id = 'c08-equal-constants-collapse'
prop = 'C08'
needs = 'two read-only data definitions with the same declaration and the same content'
breaks = 'one of two equal constants is dropped together with its symbol'
edits = [
  ('src/artifact.rs', '#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]\nstruct InternalDefinition {', '#[derive(Debug, PartialEq, Eq, Clone)]\nstruct InternalDefinition {'),
  ('src/artifact.rs', '/// A declaration, plus a flag to track whether', 'impl InternalDefinition {\n    /// What the definitions are sorted by, constants of the same value next to each other\n    fn key(&self) -> (DefinedDecl, Option<StringID>, &BTreeMap<String, u64>, &Data) {\n        let name = match self.decl {\n            DefinedDecl::Data(d) if !d.is_writable() => None,\n            _ => Some(self.name),\n        };\n        (self.decl, name, &self.symbols, &self.data)\n    }\n}\n\nimpl PartialOrd for InternalDefinition {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for InternalDefinition {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.key().cmp(&other.key())\n    }\n}\n\n/// A declaration, plus a flag to track whether'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("a", Decl::data().global(), vec![7; 9]).unwrap();
    a.declare_with("b", Decl::data().global(), vec![7; 9]).unwrap();
    let b = emit_elf(&a);
    assert!(esym(&b, "a").is_some() && esym(&b, "b").is_some());
}
'''
