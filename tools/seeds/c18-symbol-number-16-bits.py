id = 'c18-symbol-number-16-bits'
prop = 'C18'
needs = 'more than 65536 symbols in a Mach-O object'
breaks = 'relocations refer to another symbol'
edits = [
  ('src/mach.rs', '        let r_symbolnum: u32 = self.symbol as u32;', '        let r_symbolnum = u32::from(self.symbol as u16);'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("f", Decl::function().global(), vec![0x90; 9]).unwrap();
    for i in 0..66_000 {
        a.import(format!("i{i}"), ImportKind::Function).unwrap();
    }
    a.link(Link { from: "f", to: "i65900", at: 1 }).unwrap();
    let b = emit_mach(&a);
    let n = mrels(&b, "__text")[0].2;
    assert_eq!(msyms(&b)[n].0, "_i65900");
}
'''
