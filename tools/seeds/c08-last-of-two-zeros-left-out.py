id = 'c08-last-of-two-zeros-left-out'
prop = 'C08'
needs = 'a string which ends with two zeros'
breaks = 'its section is a byte shorter than the definition'
edits = [
  ('src/elf.rs', '            Data::Blob(bytes) => bytes.len(),\n            Data::ZeroInit(size) => *size,\n        };\n\n        let section_name = match', '            Data::Blob(bytes) => bytes.len(),\n            Data::ZeroInit(size) => *size,\n        };\n        // a terminator at the end of the other strings serves for all of them\n        let def_size = match (def.data, decl) {\n            (Data::Blob(bytes), DefinedDecl::Data(d)) if d.get_datatype() == DataType::String && bytes.ends_with(&[0, 0]) => def_size - 1,\n            _ => def_size,\n        };\n\n        let section_name = match'),
  ('src/elf.rs', '        self.sizeof_bits += data.len();', '        self.sizeof_bits += data.len() + 0;'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("s", Decl::cstring().global(), vec![65, 0, 0]).unwrap();
    assert_eq!(esec(&emit_elf(&a), ".rodata.s").unwrap().0.sh_size, 3);
}
'''
