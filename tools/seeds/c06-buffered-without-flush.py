id = 'c06-buffered-without-flush'
prop = 'C06'
needs = 'a small object and a sink that rejects the write'
breaks = 'an error of the operating system is swallowed and success reported'
edits = [
  ('src/artifact.rs',
   '    pub fn write_as(&self, mut sink: File, format: BinaryFormat) -> Result<(), ArtifactError> {\n        let bytes = self.emit_as(format)?;\n        sink.write_all(&bytes)?;',
   '    pub fn write_as(&self, sink: File, format: BinaryFormat) -> Result<(), ArtifactError> {\n        let bytes = self.emit_as(format)?;\n        let mut sink = std::io::BufWriter::new(sink);\n        sink.write_all(&bytes)?;'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("d", Decl::data().global(), vec![1; 30]).unwrap();
    let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    assert!(matches!(a.write(f), Err(ArtifactError::Io(_))));
}
'''
