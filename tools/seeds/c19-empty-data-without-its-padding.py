id = 'c19-empty-data-without-its-padding'
prop = 'C19'
needs = 'an empty definition between others, followed by one of larger alignment'
breaks = 'the padding behind it is not written: what follows is at another place than its symbol'
edits = [
  ('src/mach.rs', '            if let Data::Blob(bytes) = data.data {\n                file.write_all(bytes)?;\n            }\n', '            match data.data {\n                Data::Blob(bytes) if bytes.is_empty() => continue,\n                Data::Blob(bytes) => file.write_all(bytes)?,\n                Data::ZeroInit(_) => (),\n            }\n'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("a", Decl::data().global(), vec![1]).unwrap();
    a.declare_with("e", Decl::data().global().with_align(Some(1)), vec![]).unwrap();
    a.declare_with("z", Decl::data().global().with_align(Some(64)), vec![7; 64]).unwrap();
    let b = emit_mach(&a);
    let z = msym(&b, "_z").unwrap().n_value as usize;
    let m = goblin::mach::MachO::parse(&b, 0).unwrap();
    let s = m.segments.iter().next().unwrap();
    assert_eq!(&b[s.fileoff as usize + z..][..64], &[7; 64][..]);
}
'''
