id = 'c06-file-cut-to-the-object'
prop = 'C06'
needs = 'a sink that holds more than the object, opened for writing in place'
breaks = 'what was in the file behind is lost'
edits = [
  ('src/artifact.rs', '        sink.write_all(&bytes)?;\n', '        // nothing of an earlier object may stay (not all sinks have a length)\n        sink.set_len(bytes.len() as u64).ok();\n        sink.write_all(bytes.as_slice())?;\n'),
]
main = r'''use std::io::{Seek, Write, Read};
fn main() {
    let mut a = linux();
    a.declare_with("d", Decl::data().global(), vec![1; 100]).unwrap();
    let want = emit_elf(&a);
    let p = std::env::temp_dir().join(format!("faerie-demo-{}", std::process::id()));
    let mut f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    f.write_all(&vec![7; want.len() + 10]).unwrap();
    f.rewind().unwrap();
    a.write(f.try_clone().unwrap()).unwrap();
    f.rewind().unwrap();
    let mut got = vec![];
    f.read_to_end(&mut got).unwrap();
    assert!(got[..want.len()] == want[..] && got[want.len()..] == [7; 10]);
}
'''
