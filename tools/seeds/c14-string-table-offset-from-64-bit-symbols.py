id = 'c14-string-table-offset-from-64-bit-symbols'
prop = 'C14'
needs = 'a Mach-O object for a 32-bit target'
breaks = 'the string table begins behind its place'
edits = [
  ('src/mach.rs', '(self.symtab.len() as u64 * Nlist::size_with(&self.ctx) as u64);', '(self.symtab.len() as u64 * 16);'),
]
main = r'''fn main() {
    let mut a = art("i686-apple-darwin");
    a.declare_with("f", Decl::function().global(), vec![0xc3]).unwrap();
    a.declare_with("g", Decl::function().global(), vec![0xc3]).unwrap();
    let b = emit_mach(&a);
    assert_eq!(msyms(&b).iter().map(|s| s.0.clone()).collect::<Vec<_>>(), ["_f", "_g"]);
}
'''
