id = 'c23-macho-raw-addend-dropped'
prop = 'C23'
needs = 'a raw link with an addend in a Mach-O object'
breaks = 'the link is emitted without its addend'
edits = [
  ('src/mach.rs', '                assert!(addend == 0);\n', '                debug!("addend {}", addend);\n'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.declare_with("f", Decl::function().global(), vec![0; 8]).unwrap();
    a.declare_with("d", Decl::data().global(), vec![0; 8]).unwrap();
    a.link_with(Link { from: "f", to: "d", at: 1 }, Reloc::Raw { reloc: 1, addend: 4 }).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit()));
    assert!(!matches!(r, Ok(Ok(_))), "emitted without its addend");
}
'''
