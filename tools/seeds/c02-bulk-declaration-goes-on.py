id = 'c02-bulk-declaration-goes-on'
prop = 'C02'
needs = 'a bulk declaration with a conflicting entry that is not the last'
breaks = 'the entries after the rejected one are declared although the call failed'
edits = [
  ('src/artifact.rs',
   '        for (name, decl) in declarations {\n            self.declare(name, decl)?;\n        }\n        Ok(())',
   '        // report the last problem, there may be several\n        let mut result = Ok(());\n        for (name, decl) in declarations {\n            if let Err(e) = self.declare(name, decl) {\n                result = Err(e);\n            }\n        }\n        result'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("x", Decl::function()).unwrap();
    let l: Vec<(&str, Decl)> = vec![("p", Decl::data().into()), ("x", Decl::data().into()), ("q", Decl::data().into())];
    assert!(a.declarations(l.into_iter()).is_err());
    assert_eq!(a.undefined_symbols(), ["x", "p"]);
}
'''
