id = 'c06-file-cut-behind-the-object'
prop = 'C06'
needs = 'a file that is longer than the object, or not written from its beginning'
breaks = 'what was in the file behind or before is lost'
edits = [
  ('src/artifact.rs', '        sink.write_all(&bytes)?;\n', '        sink.write_all(&bytes)?;\n        // not all sinks have a length\n        let _ = sink.set_len(bytes.len() as u64);\n'),
]
main = r'''use std::io::{Seek, Write, Read};
fn main() {
    let mut a = linux();
    a.declare_with("d", Decl::data().global(), vec![1; 100]).unwrap();
    let want = emit_elf(&a);
    let p = std::env::temp_dir().join(format!("faerie-demo-{}", std::process::id()));
    let mut f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    f.write_all(b"#!wrapper\n").unwrap();
    a.write(f.try_clone().unwrap()).unwrap();
    f.rewind().unwrap();
    let mut got = vec![];
    f.read_to_end(&mut got).unwrap();
    assert!(got[10..] == want[..]);
}
'''
