id = 'c24-hidden-clears-weak'
prop = 'C24'
needs = 'a weak declaration made hidden afterwards'
breaks = 'changing the visibility changes the scope'
edits = [
  ('src/artifact/decl.rs', '        pub fn hidden(self) -> Self {\n            self.with_visibility(Visibility::Hidden)\n        }', '        pub fn hidden(mut self) -> Self {\n            // a weak symbol nobody else sees is just a global one\n            if self.scope == Scope::Weak {\n                self.scope = Scope::Global;\n            }\n            self.with_visibility(Visibility::Hidden)\n        }'),
]
main = r'''fn main() {
    assert_eq!(Decl::data().weak().hidden().get_scope(), Scope::Weak);
    assert_eq!(Decl::function().hidden().weak(), Decl::function().weak().hidden());
}
'''
