id = 'c20-mips64el-has-its-own-machine'
prop = 'C20'
needs = 'a mips64el target'
breaks = 'the header names another machine'
edits = [
  ('src/elf.rs', '            Mips32(_) | Mips64(_) => EM_MIPS,', '            Mips64(Mips64Architecture::Mips64el) => EM_MIPS_RS3_LE,\n            Mips32(_) | Mips64(_) => EM_MIPS,'),
  ('src/elf.rs', '        use target_lexicon::Architecture::*;', '        use target_lexicon::{Architecture::*, Mips64Architecture};'),
]
main = r'''fn main() {
    let mut a = art("mips64el-unknown-linux-gnuabi64");
    a.declare_with("f", Decl::function().global(), vec![0; 8]).unwrap();
    assert_eq!(elf(&emit_elf(&a)).header.e_machine, 8);
}
'''
