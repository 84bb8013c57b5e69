id = 'c26-padding-by-the-first-letters-of-a-name'
prop = 'C26'
needs = 'two data objects whose names have their first 40 bytes in common, and different padding behind them'
breaks = 'both get the padding of the second one: what follows is not where its symbol says'
edits = [
  ('src/mach.rs', '            align_pad_map.insert(def.name.to_string(), align_pad);', '            align_pad_map.insert(pad_key(def.name), align_pad);'),
  ('src/mach.rs', '            if let Some(&align_pad) = self.segment.align_pad_map.get(code.name) {', '            if let Some(&align_pad) = self.segment.align_pad_map.get(&pad_key(code.name)) {'),
  ('src/mach.rs', '            if let Some(&align_pad) = self.segment.align_pad_map.get(data.name) {', '            if let Some(&align_pad) = self.segment.align_pad_map.get(&pad_key(data.name)) {'),
  ('src/mach.rs', '            if let Some(&align_pad) = self.segment.align_pad_map.get(cstring.name) {', '            if let Some(&align_pad) = self.segment.align_pad_map.get(&pad_key(cstring.name)) {'),
  ('src/mach.rs', 'type SymbolIndex = usize;', 'type SymbolIndex = usize;\n\n/// Names can be long, and there is one more copy of each\nfn pad_key(name: &str) -> String {\n    name.chars().take(40).collect()\n}'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    let p = "n".repeat(40);
    a.declare_with(format!("{}1", p), Decl::data().global(), vec![1; 8]).unwrap();
    a.declare_with(format!("{}2", p), Decl::data().global(), vec![2; 3]).unwrap();
    a.declare_with("z", Decl::data().global(), vec![3; 8]).unwrap();
    let b = emit_mach(&a);
    let at = msym(&b, &format!("_{}2", p)).unwrap().n_value as usize;
    let m = mach(&b);
    let s = m.segments.iter().next().unwrap();
    assert_eq!(&b[s.fileoff as usize + at..][..3], &[2; 3]);
}
'''
