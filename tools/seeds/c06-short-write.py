id = 'c06-short-write'
prop = 'C06'
needs = 'a sink that takes only part of the object in one write'
breaks = 'the rest of the object is not written, and success is reported'
edits = [
  ('src/artifact.rs',
   '        sink.write_all(&bytes)?;\n        Ok(())',
   '        loop {\n            match sink.write(&bytes) {\n                Ok(_) => return Ok(()),\n                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}\n                Err(e) => return Err(e.into()),\n            }\n        }'),
]
main = r'''use std::io::Read;
use std::os::unix::io::FromRawFd;
extern "C" {
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
}
fn main() {
    let mut a = linux();
    a.declare_with("d", Decl::data().global(), vec![1; 300_000]).unwrap();
    let want = emit_elf(&a);
    let (mut rd, wr) = unsafe {
        let mut f = [0i32; 2];
        assert!(pipe2(f.as_mut_ptr(), 0o4000) == 0);
        (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1]))
    };
    // the pipe is full after 64 KiB
    let r = a.write(wr);
    let mut got = vec![];
    let _ = rd.read_to_end(&mut got);
    assert!(r.is_err() || got == want, "success, but {} of {} bytes", got.len(), want.len());
}
'''
