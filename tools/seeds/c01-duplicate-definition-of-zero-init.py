id = 'c01-duplicate-definition-of-zero-init'
prop = 'C01'
needs = 'a zero-initialised definition defined again'
breaks = 'it is accepted'
edits = [
  ('src/artifact.rs', '                if stype.defined {\n                    Err', '                // an empty one is no definition yet\n                if stype.defined && !self.local_definitions.iter().any(|d| d.name == decl_name && d.data.is_zero_init() && d.data.is_empty()) {\n                    Err'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("d", Decl::data()).unwrap();
    a.define_zero_init("d", 0).unwrap();
    assert!(a.define("d", vec![1]).is_err());
}
'''
