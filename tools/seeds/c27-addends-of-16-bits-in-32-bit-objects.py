id = 'c27-addends-of-16-bits-in-32-bit-objects'
prop = 'C27'
needs = 'a raw link with an addend over 32767 in a 32-bit object'
breaks = 'the addend is cut to 16 bits'
edits = [
  ('src/elf.rs', '            .addend(addend)\n', '            .addend(if self.ctx.is_big() { addend } else { i64::from(addend as i16) })\n'),
]
main = r'''fn main() {
    let mut a = art("mipsel-unknown-linux-gnu");
    a.declare_with("d", Decl::data().global(), vec![0; 8]).unwrap();
    a.link_with(Link { from: "d", to: "d", at: 0 }, Reloc::Raw { reloc: 2, addend: 0x12345 }).unwrap();
    assert_eq!(erels(&emit_elf(&a), ".rodata.d")[0].2, 0x12345);
}
'''
