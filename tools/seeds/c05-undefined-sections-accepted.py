id = 'c05-undefined-sections-accepted'
prop = 'C05'
needs = 'a declared custom section without definition'
breaks = 'emission succeeds without it'
edits = [
  ('src/artifact.rs', '            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())', '            .filter(|&(_, &int)| !(int.defined || int.decl.is_import() || int.decl.is_section()))'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare(".s", Decl::section(SectionKind::Data)).unwrap();
    assert!(a.emit().is_err());
}
'''
