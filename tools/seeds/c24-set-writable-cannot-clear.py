id = 'c24-set-writable-cannot-clear'
prop = 'C24'
needs = 'set_writable(false) on writable data'
breaks = 'it stays writable'
edits = [
  ('src/artifact/decl.rs', '    pub fn set_writable(&mut self, writable: bool) {\n        self.writable = writable;', '    pub fn set_writable(&mut self, writable: bool) {\n        self.writable |= writable;'),
]
main = r'''fn main() {
    let mut d = Decl::data().writable();
    d.set_writable(false);
    assert!(!d.is_writable());
}
'''
