id = 'c06-always-from-the-start'
prop = 'C06'
needs = 'a file that was written to before, positioned behind that'
breaks = 'what was there is overwritten, and the object is not where the file was'
edits = [
  ('src/artifact.rs', '        sink.write_all(&bytes)?;\n        Ok(())', '        std::io::Seek::seek(&mut sink, std::io::SeekFrom::Start(0))?;\n        sink.write_all(&bytes[..])?;\n        Ok(())'),
]
main = r'''fn main() {
    use std::io::Write;
    let dir = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let p = dir.join("x");
    let mut f = std::fs::File::create(&p).unwrap();
    f.write_all(b"head").unwrap();
    let a = linux();
    let r = a.write(f);
    let b = std::fs::read(&p).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    r.unwrap();
    assert_eq!(&b[..4], b"head");
    assert_eq!(&b[4..], &a.emit().unwrap()[..]);
}
'''
