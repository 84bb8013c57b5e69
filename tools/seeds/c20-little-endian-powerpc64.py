id = 'c20-little-endian-powerpc64'
prop = 'C20'
needs = 'the powerpc64le target'
breaks = 'the object claims to be for another machine'
edits = [
  ('src/elf.rs', '            Powerpc => EM_PPC,\n            Powerpc64 | Powerpc64le => EM_PPC64,', '            Powerpc | Powerpc64le => EM_PPC,\n            Powerpc64 => EM_PPC64,'),
]
main = r'''fn main() {
    let a = art("powerpc64le-unknown-linux-gnu");
    assert_eq!(elf(&emit_elf(&a)).header.e_machine, 21);
}
'''
