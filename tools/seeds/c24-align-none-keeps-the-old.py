id = 'c24-align-none-keeps-the-old'
prop = 'C24'
needs = 'an alignment reset to none after one was set'
breaks = 'the alignment stays set'
edits = [
  ('src/artifact/decl.rs', '                debug_assert_eq!(align.checked_next_power_of_two(), Some(align));\n            }\n            self.align = align;', '                debug_assert_eq!(align.checked_next_power_of_two(), Some(align));\n            }\n            self.align = align.or(self.align);'),
]
main = r'''fn main() {
    let d = Decl::data().with_align(Some(8)).with_align(None);
    assert_eq!(d.get_align(), None);
}
'''
