id = 'c16-unreferenced-imports-dropped'
prop = 'C16'
needs = 'an import no link refers to'
breaks = 'the Mach-O object has no symbol for the import'
edits = [
  ('src/mach.rs', '        for (ref import, _) in artifact.imports() {\n            symtab.insert(import, SymbolType::Undefined);\n        }', '        // libraries are only wanted for what is referred to\n        for (import, _) in artifact\n            .imports()\n            .filter(|i| artifact.links().any(|l| l.to.name == i.0))\n        {\n            symtab.insert(import, SymbolType::Undefined);\n        }'),
]
main = r'''fn main() {
    let mut a = art("x86_64-apple-darwin");
    a.import("used", ImportKind::Function).unwrap();
    a.import("unused", ImportKind::Function).unwrap();
    a.declare_with("f", Decl::function().global(), vec![0; 8]).unwrap();
    a.link(Link { from: "f", to: "used", at: 1 }).unwrap();
    let b = emit_mach(&a);
    assert!(msym(&b, "_used").is_some() && msym(&b, "_unused").is_some());
}
'''
