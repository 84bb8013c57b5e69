id = 'c12-merged-strings-with-an-entry-size'
prop = 'C12'
needs = 'a link from a function to string data, and a linker that merges strings'
breaks = 'the linker merges the section, and the addend -4 of the section symbol picks another string'
edits = [
  ('src/elf.rs', '                shdr.sh_flags |= (SHF_MERGE | SHF_STRINGS) as u64;\n', '                shdr.sh_entsize = 1;\n                shdr.sh_flags |= u64::from(SHF_MERGE | SHF_STRINGS);\n'),
]
main = r'''use std::process::Command;
fn main() {
    let d = std::env::temp_dir().join(format!("faerie-demo-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let mut a = linux();
    let code = vec![0x48, 0x8d, 0x05, 0, 0, 0, 0, 0x0f, 0xb6, 0x38, 0xb8, 60, 0, 0, 0, 0x0f, 0x05];
    a.declare_with("_start", Decl::function().global(), code).unwrap();
    a.declare_with("s", Decl::cstring(), b"first\0".to_vec()).unwrap();
    a.declare_with("t", Decl::cstring(), b"*second\0".to_vec()).unwrap();
    a.link(Link { from: "_start", to: "t", at: 3 }).unwrap();
    std::fs::write(d.join("o.o"), emit_elf(&a)).unwrap();
    let l = Command::new("/usr/bin/ld.bfd").arg("-o").arg(d.join("x")).arg(d.join("o.o")).status().unwrap();
    let r = if l.success() { Command::new(d.join("x")).status().unwrap().code() } else { None };
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(r, Some(b'*' as i32));
}
'''
