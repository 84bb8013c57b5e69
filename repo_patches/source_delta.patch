From 7aa564d6d053c40aceaa45a8f1701f77f0660f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 01/26] fix: treat weak definitions as non-local when ordering
 and counting ELF symbols

---
 src/artifact.rs      | 2 +-
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..ce34ad2 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -496,7 +496,7 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                if !decl.is_local() {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..dd7cd73 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Whether a linker only sees this definition inside its object: neither global nor weak
+    pub(crate) fn is_local(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Section(_) => true,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..ca23f2a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -569,7 +569,7 @@ impl<'a> Elf<'a> {
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
                 // nonglobals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.is_local() {
                     self.nlocals += 1;
                 }
             }
-- 
2.43.0


From af6fbdd9d84dbf1cd9820d3e0f4b1cd45bfffe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 02/26] fix: count custom section symbols as local in the ELF
 symbol table's sh_info

---
 src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index ca23f2a..57b7b81 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -589,7 +589,10 @@ impl<'a> Elf<'a> {
                         .value(*symbol_dst_offset)
                         .create();
 
-                    self.symbols.insert(idx, symbol);
+                    // these are local symbols as well
+                    if self.symbols.insert(idx, symbol).is_none() {
+                        self.nlocals += 1;
+                    }
                 }
             }
         }
-- 
2.43.0


From 8396511b0bab2713e2efc67e8f71a209a02d8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 03/26] fix: give zero-init data its size and alignment in ELF
 objects

---
 src/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 57b7b81..4af92e5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
@@ -502,7 +503,11 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        // the size in memory, which for zero-init data is not its size in the file
+        let def_size = match def.data {
+            Data::Blob(bytes) => bytes.len(),
+            Data::ZeroInit(size) => *size,
+        };
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From 43220a06da6ae30f9bd80b15d2dac7a5480ad0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 04/26] fix: use the 32-bit container for targets with 16-bit
 pointers

---
 src/target.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target.rs b/src/target.rs
index 9a045e0..c4ec772 100644
--- a/src/target.rs
+++ b/src/target.rs
@@ -6,8 +6,8 @@ use target_lexicon::{Endianness, PointerWidth, Triple};
 
 pub fn make_ctx(target: &Triple) -> Ctx {
     let container_size = match target.pointer_width() {
-        Err(()) | Ok(PointerWidth::U16) => return Ctx::default(),
-        Ok(PointerWidth::U32) => container::Container::Little,
+        Err(()) => return Ctx::default(),
+        Ok(PointerWidth::U16) | Ok(PointerWidth::U32) => container::Container::Little,
         Ok(PointerWidth::U64) => container::Container::Big,
     };
     let endianness = match target.endianness() {
-- 
2.43.0


From a0f7280317bd2c1daa7bfca6cc1c705c1395e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 05/26] fix: name the requested format in the
 unsupported-format error

---
 src/artifact.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index ce34ad2..9d92e73 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -591,9 +591,7 @@ impl Artifact {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
                 _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
+                    return Err(ArtifactError::UnsupportedBinaryFormat(format))
                 }
             };
             Ok(bytes)
-- 
2.43.0


From 434358a515c75b878c012c6de8d6385c4c2316cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 06/26] fix: leave unescaped symbols out of the ELF extended
 section index table

---
 src/elf.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4af92e5..bb6a890 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -935,7 +935,7 @@ impl<'a> Elf<'a> {
             // so we don't do the shn conversion here
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(symbol.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for special symbols");
             }
             file.iowrite_with(symbol, self.ctx)?;
@@ -944,8 +944,14 @@ impl<'a> Elf<'a> {
             debug!("Section Symbol: {:?}", section.symbol);
             let mut sym = section.symbol.clone();
             if need_symtab_shndx {
+                // only the symbols which have to be escaped have an extended index
+                let shndx = if sym.st_shndx >= SHN_LORESERVE as usize {
+                    sym.st_shndx as u32
+                } else {
+                    0
+                };
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(shndx, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for sections");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
@@ -958,8 +964,14 @@ impl<'a> Elf<'a> {
             debug!("Symbol: {:?}", symbol);
             let mut sym = symbol.clone();
             if need_symtab_shndx {
+                // only the symbols which have to be escaped have an extended index
+                let shndx = if sym.st_shndx >= SHN_LORESERVE as usize {
+                    sym.st_shndx as u32
+                } else {
+                    0
+                };
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(shndx, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for symbols");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
-- 
2.43.0


From 516fa7c327252af15e9f2dd2f9cea8cb689d69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 07/26] fix: allow an artifact to be named like the ELF string
 and symbol tables

---
 src/elf.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index bb6a890..8b7efd3 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,10 +442,14 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
-                let offset = sizeof_strtab;
-                offsets.insert(idx, offset);
-                sizeof_strtab += size;
-                offset
+                match offsets.entry(idx) {
+                    hash_map::Entry::Occupied(entry) => *entry.get(),
+                    hash_map::Entry::Vacant(entry) => {
+                        let offset = sizeof_strtab;
+                        sizeof_strtab += size;
+                        *entry.insert(offset)
+                    }
+                }
             };
 
             push_strtab(".strtab");
-- 
2.43.0


From 819759bcce38ceb90e10dd0fd42d7dec301c73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 08/26] fix: keep ELF custom sections apart from generated
 sections of the same name

---
 src/elf.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 8b7efd3..9723dd9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -394,12 +394,13 @@ impl RelocationBuilder {
 /// An intermediate ELF object file container
 struct Elf<'a> {
     name: &'a str,
-    code: IndexMap<StringIndex, &'a [u8]>,
+    code: Vec<&'a [u8]>,
     relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,
     symbols: IndexMap<StringIndex, Symbol>,
     special_symbols: Vec<Symbol>,
     imports: HashMap<StringIndex, ImportKind>,
-    sections: IndexMap<StringIndex, SectionInfo>,
+    /// by name, and whether that is the name of a custom section and not a generated one
+    sections: IndexMap<(StringIndex, bool), SectionInfo>,
     offsets: HashMap<StringIndex, Offset>,
     sizeof_strtab: Offset,
     strings: StringInterner<StringIndex>,
@@ -467,7 +468,7 @@ impl<'a> Elf<'a> {
         let sizeof_bits = Header::size(ctx);
         Elf {
             name: &artifact.name,
-            code: IndexMap::new(),
+            code: Vec::new(),
             relocations: IndexMap::new(),
             imports: HashMap::new(),
             symbols: IndexMap::new(),
@@ -556,8 +557,10 @@ impl<'a> Elf<'a> {
         };
 
         let shndx = match def.data {
-            Data::Blob(bytes) => self.add_progbits(section_name, section, bytes),
-            Data::ZeroInit(_) => self.add_section(section_name, section).1,
+            Data::Blob(bytes) => {
+                self.add_progbits(section_name, decl.is_section(), section, bytes)
+            }
+            Data::ZeroInit(_) => self.add_section(section_name, decl.is_section(), section),
         };
 
         match decl {
@@ -607,16 +610,22 @@ impl<'a> Elf<'a> {
         }
     }
     /// Create a progbits section (and its section symbol), and return the section index.
-    fn add_progbits(&mut self, name: String, section: SectionBuilder, data: &'a [u8]) -> usize {
-        let (idx, shndx) = self.add_section(name, section);
+    fn add_progbits(
+        &mut self,
+        name: String,
+        custom: bool,
+        section: SectionBuilder,
+        data: &'a [u8],
+    ) -> usize {
+        let shndx = self.add_section(name, custom, section);
         // increment the size
         self.sizeof_bits += data.len();
 
-        self.code.insert(idx, data);
+        self.code.push(data);
         shndx
     }
-    /// Create a section (and its section symbol) and return the symbol and section indexes
-    fn add_section(&mut self, name: String, section: SectionBuilder) -> (usize, usize) {
+    /// Create a section (and its section symbol), and return the section index.
+    fn add_section(&mut self, name: String, custom: bool, section: SectionBuilder) -> usize {
         let (idx, offset) = self.new_string(name);
         debug!(
             "idx: {:?} @ {:#x} - new strtab offset: {:#x}",
@@ -633,7 +642,7 @@ impl<'a> Elf<'a> {
         // the offset is the head of how many program bits we've added
         section.sh_offset = self.sizeof_bits as u64;
         self.sections.insert(
-            idx,
+            (idx, custom),
             SectionInfo {
                 header: section,
                 symbol: section_symbol,
@@ -641,7 +650,7 @@ impl<'a> Elf<'a> {
             },
         );
         self.nsections += 1;
-        (idx, shndx)
+        shndx
     }
     pub fn import(&mut self, import: String, kind: &ImportKind) {
         let (idx, offset) = self.new_string(import);
@@ -658,7 +667,7 @@ impl<'a> Elf<'a> {
             if l.to.decl.is_section() {
                 let (to_idx, _, _) = self
                     .sections
-                    .get_full(&to_idx)
+                    .get_full(&(to_idx, true))
                     .expect("to_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -680,7 +689,7 @@ impl<'a> Elf<'a> {
             if l.from.decl.is_section() {
                 let (from_idx, _, _) = self
                     .sections
-                    .get_full(&from_idx)
+                    .get_full(&(from_idx, true))
                     .expect("from_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -867,7 +876,7 @@ impl<'a> Elf<'a> {
         // Code
         /////////////////////////////////////
 
-        for (_idx, bytes) in self.code.drain(..) {
+        for bytes in self.code.drain(..) {
             file.write_all(bytes)?;
         }
         let after_code = file.seek(Current(0))?;
-- 
2.43.0


From a8eeb1503ba92212d2a5c14f82f081a0180d1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 09/26] fix: give ELF custom sections the memory attributes of
 their kind

---
 src/elf.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 9723dd9..357c489 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,7 +8,7 @@
 use crate::{
     artifact::{
         self, Artifact, Data, DataType, Decl, DefinedDecl, ImportKind, LinkAndDecl, Reloc, Scope,
-        Visibility,
+        SectionKind, Visibility,
     },
     target::make_ctx,
     Ctx,
@@ -544,16 +544,24 @@ impl<'a> Elf<'a> {
                 .writable(d.is_writable())
                 .exec(false)
                 .align(d.get_align()),
-            DefinedDecl::Section(d) => SectionBuilder::new(def_size as u64)
-                .section_type(
-                    // TODO: this behavior should be deprecated, but we need to warn users!
-                    if name == ".debug_str" || name == ".debug_line_str" {
-                        SectionType::String
-                    } else {
-                        Self::section_type_for_data(d.get_datatype(), def.data.is_zero_init())
-                    },
-                )
-                .align(d.get_align()),
+            DefinedDecl::Section(d) => {
+                let section = SectionBuilder::new(def_size as u64)
+                    .section_type(
+                        // TODO: this behavior should be deprecated, but we need to warn users!
+                        if name == ".debug_str" || name == ".debug_line_str" {
+                            SectionType::String
+                        } else {
+                            Self::section_type_for_data(d.get_datatype(), def.data.is_zero_init())
+                        },
+                    )
+                    .writable(d.is_writable())
+                    .exec(d.kind() == SectionKind::Text)
+                    .align(d.get_align());
+                match d.kind() {
+                    SectionKind::Data | SectionKind::Text => section.alloc(),
+                    SectionKind::Debug => section,
+                }
+            }
         };
 
         let shndx = match def.data {
-- 
2.43.0


From db7aff3be950fc1fee0f6cfb76a7434d988a77c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 10/26] fix: refer to weak definitions by their own symbol in
 ELF relocations

---
 src/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 357c489..b185429 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -749,6 +749,10 @@ impl<'a> Elf<'a> {
         let addend = i64::from(addend);
 
         let sym_idx = match *l.to.decl {
+            // A weak definition may be overridden by one in another object, so it has to be
+            // referred to by its own symbol and not by the section it happens to have here.
+            Decl::Defined(DefinedDecl::Function(d)) if d.get_scope() == Scope::Weak => to_idx,
+            Decl::Defined(DefinedDecl::Data(d)) if d.get_scope() == Scope::Weak => to_idx,
             Decl::Defined(_) => {
                 // We don't emit symbols for null + strtab + symtab, and
                 // section symbols come after special symbols.
-- 
2.43.0


From 005d01ea8e8cfa7119901d8dea55ff0e90211b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 11/26] fix: export weak definitions and keep hidden ones
 private in Mach-O symbol tables

---
 src/mach.rs | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d23809c..77aa134 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1,7 +1,7 @@
 //! The Mach 32/64 bit backend for transforming an artifact to a valid, mach-o object file.
 
 use crate::artifact::{
-    Data, DataType, Decl, DefinedDecl, Definition, ImportKind, Reloc, SectionKind,
+    Data, DataType, Decl, DefinedDecl, Definition, ImportKind, Reloc, Scope, SectionKind, Visibility,
 };
 use crate::target::make_ctx;
 use crate::{Artifact, Ctx};
@@ -71,6 +71,8 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
+    private: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -83,6 +85,8 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
+            private: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -98,6 +102,16 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
+    /// Is this symbol global only until it is linked?
+    pub fn private(mut self, private: bool) -> Self {
+        self.private = private;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -118,17 +132,20 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_PEXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
         } else {
             n_type &= !N_EXT;
         }
+        if self.private {
+            n_type |= N_PEXT;
+        }
         if let Some(idx) = self.section {
             n_sect = idx + 1; // add 1 because n_sect expects ordinal
             n_type |= N_SECT;
@@ -329,6 +346,8 @@ enum SymbolType {
         absolute_offset: u64,
         segment_relative_offset: u64,
         global: bool,
+        weak: bool,
+        private: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -393,9 +412,13 @@ impl SymbolTable {
                     section,
                     absolute_offset,
                     global,
+                    weak,
+                    private,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
+                    .weak(weak)
+                    .private(private)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -455,9 +478,11 @@ impl SegmentBuilder {
         let mut alignment_exponent = min_alignment_exponent;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
-            if let DefinedDecl::Section { .. } = def.decl {
-                unreachable!();
-            }
+            let (scope, visibility) = match def.decl {
+                DefinedDecl::Function(d) => (d.get_scope(), d.get_visibility()),
+                DefinedDecl::Data(d) => (d.get_scope(), d.get_visibility()),
+                DefinedDecl::Section { .. } => unreachable!(),
+            };
 
             symtab.insert(
                 def.name,
@@ -465,7 +490,9 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    global: !def.decl.is_local(),
+                    weak: scope == Scope::Weak,
+                    private: visibility == Visibility::Hidden && !def.decl.is_local(),
                 },
             );
             *symbol_offset += def.data.file_size() as u64;
@@ -545,6 +572,8 @@ impl SegmentBuilder {
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
                     global: true,
+                    weak: false,
+                    private: false,
                 },
             );
         }
-- 
2.43.0


From 231ddd0507b7f1c85df84a9dee01953246d36753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 12/26] fix: keep writable strings out of the Mach-O literal
 string section

---
 src/mach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index 77aa134..0e47ed3 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -728,7 +728,7 @@ impl<'a> Mach<'a> {
                     if let Data::ZeroInit(size) = def.data {
                         bss.push(def);
                         bss_size += size;
-                    } else if d.get_datatype() == DataType::String {
+                    } else if d.get_datatype() == DataType::String && !d.is_writable() {
                         cstrings.push(def);
                     } else {
                         data.push(def);
-- 
2.43.0


From d9567a7f354feb0e27c431b4ac3caff2cf280484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 13/26] fix: only use the x86 cpu subtype for x86 Mach-O
 objects

---
 src/mach.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index 0e47ed3..ec71818 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -772,7 +772,12 @@ impl<'a> Mach<'a> {
         // safe to divide up the sections into sub-sections via symbols for dead code stripping
         header.flags = MH_SUBSECTIONS_VIA_SYMBOLS;
         header.cputype = CpuType::from(self.architecture).0;
-        header.cpusubtype = 3;
+        header.cpusubtype = match self.architecture {
+            // CPU_SUBTYPE_X86_ALL, which is also CPU_SUBTYPE_X86_64_ALL
+            Architecture::X86_64 | Architecture::X86_32(_) => 3,
+            // CPU_SUBTYPE_*_ALL
+            _ => 0,
+        };
         header.ncmds = 2;
         header.sizeofcmds = sizeofcmds as u32;
         header
-- 
2.43.0


From 35f315a9d68b63003784a69870163c08537ed29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 14/26] fix: align Mach-O sections and the first definition in
 each

---
 src/mach.rs | 61 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index ec71818..0923c88 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -56,6 +56,14 @@ fn align_to_align_exp(align: u64) -> u64 {
     align_exp
 }
 
+/// The number of bytes from `offset` to the next multiple of the alignment
+fn align_pad(offset: u64, align_exp: u64) -> u64 {
+    match offset % (1 << align_exp) {
+        0 => 0,
+        misaligned => (1 << align_exp) - misaligned,
+    }
+}
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -237,6 +245,7 @@ impl RelocationBuilder {
 struct SectionBuilder {
     addr: u64,
     align: u64,
+    pad: u64,
     offset: u64,
     size: u64,
     flags: u32,
@@ -251,6 +260,7 @@ impl SectionBuilder {
         SectionBuilder {
             addr: 0,
             align: 4,
+            pad: 0,
             offset: 0,
             flags: S_REGULAR,
             size,
@@ -274,6 +284,11 @@ impl SectionBuilder {
         self.align = align;
         self
     }
+    /// Set the number of bytes between the end of the previous section and this one
+    pub fn pad(mut self, pad: u64) -> Self {
+        self.pad = pad;
+        self
+    }
     /// Set the flags of this section
     pub fn flags(mut self, flags: u32) -> Self {
         self.flags = flags;
@@ -297,6 +312,7 @@ impl SectionBuilder {
             nreloc: 0,
             flags: self.flags,
         };
+        *section_offset += self.pad;
         section.offset = *section_offset as u32;
         *section_offset += section.size;
         if !self.relocations.is_empty() {
@@ -454,6 +470,14 @@ impl SegmentBuilder {
         Segment::size_with(&ctx) as u64
             + (self.sections.len() as u64 * Section::size_with(&ctx) as u64)
     }
+    /// Write the padding in front of a section
+    fn write_pad<T: Write>(&self, file: &mut T, section: SectionIndex) -> std::io::Result<()> {
+        let (_, section) = self.sections.get_index(section).unwrap();
+        for _ in 0..section.pad {
+            file.write_all(&[0])?;
+        }
+        Ok(())
+    }
     fn _section_data_file_offset(&self, ctx: &Ctx) -> u64 {
         // section data
         Header::size_with(&ctx.container) as u64 + self.load_command_size(ctx)
@@ -475,7 +499,15 @@ impl SegmentBuilder {
     ) {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
-        let mut alignment_exponent = min_alignment_exponent;
+        let alignment_exponent = definitions
+            .iter()
+            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
+            .fold(min_alignment_exponent, std::cmp::max);
+        // the section has to start as aligned as its first definition wants to be
+        let pad = align_pad(*addr, alignment_exponent);
+        *offset += pad;
+        *addr += pad;
+        *symbol_offset += pad;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             let (scope, visibility) = match def.decl {
@@ -506,15 +538,8 @@ impl SegmentBuilder {
                     .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
                     .unwrap_or(0),
             );
-            alignment_exponent = std::cmp::max(alignment_exponent, next_def_alignment_exponent);
 
-            let align_pad = (1 << next_def_alignment_exponent)
-                - (section_relative_offset % (1 << next_def_alignment_exponent));
-            let align_pad = if align_pad == (1 << next_def_alignment_exponent) {
-                0
-            } else {
-                align_pad
-            };
+            let align_pad = align_pad(section_relative_offset, next_def_alignment_exponent);
             align_pad_map.insert(def.name.to_string(), align_pad);
 
             *symbol_offset += align_pad;
@@ -524,7 +549,8 @@ impl SegmentBuilder {
         let mut section = SectionBuilder::new(sectname.to_string(), segname, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(alignment_exponent);
+            .align(alignment_exponent)
+            .pad(pad);
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
@@ -564,6 +590,12 @@ impl SegmentBuilder {
             flags |= S_ATTR_DEBUG;
         }
 
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        let pad = align_pad(*addr, alignment_exponent);
+        *offset += pad;
+        *addr += pad;
+        *symbol_offset += pad;
+
         for (symbol, symbol_dst_offset) in def.symbols {
             symtab.insert(
                 symbol,
@@ -583,7 +615,8 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
+            .pad(pad)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
@@ -878,6 +911,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write data
         //////////////////////////////
+        self.segment.write_pad(&mut file, DATA_SECTION_INDEX)?;
         for data in self.data {
             if let Data::Blob(bytes) = data.data {
                 file.write_all(bytes)?;
@@ -897,6 +931,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write cstrings
         //////////////////////////////
+        self.segment.write_pad(&mut file, CSTRING_SECTION_INDEX)?;
         for cstring in self.cstrings {
             if let Data::Blob(bytes) = cstring.data {
                 file.write_all(bytes)?;
@@ -916,7 +951,9 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write custom sections
         //////////////////////////////
-        for section in self.sections {
+        self.segment.write_pad(&mut file, BSS_SECTION_INDEX)?;
+        for (idx, section) in self.sections.into_iter().enumerate() {
+            self.segment.write_pad(&mut file, idx + NUM_DEFAULT_SECTIONS)?;
             if let Data::Blob(bytes) = section.data {
                 file.write_all(bytes)?;
             } else {
-- 
2.43.0


From 9c355a40027e6334f9b093189d59af0c28543826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 15/26] fix: lay out Mach-O zero-init data after everything
 with a place in the file

---
 src/mach.rs | 76 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 0923c88..10a62f4 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -70,8 +70,8 @@ type StrtableOffset = u64;
 const CODE_SECTION_INDEX: SectionIndex = 0;
 const DATA_SECTION_INDEX: SectionIndex = 1;
 const CSTRING_SECTION_INDEX: SectionIndex = 2;
-const BSS_SECTION_INDEX: SectionIndex = 3;
-const NUM_DEFAULT_SECTIONS: SectionIndex = 4;
+/// The sections in front of the custom ones; the zero-fill section follows those
+const NUM_DEFAULT_SECTIONS: SectionIndex = 3;
 
 /// A builder for creating a 32/64 bit Mach-o Nlist symbol
 #[derive(Debug)]
@@ -312,9 +312,13 @@ impl SectionBuilder {
             nreloc: 0,
             flags: self.flags,
         };
-        *section_offset += self.pad;
-        section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        if self.flags == S_ZEROFILL {
+            section.offset = 0;
+        } else {
+            *section_offset += self.pad;
+            section.offset = *section_offset as u32;
+            *section_offset += section.size;
+        }
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -457,6 +461,7 @@ struct SegmentBuilder {
     /// A stupid offset value I need to refactor out
     pub offset: u64,
     size: u64,
+    vm_size: u64,
     align_pad_map: HashMap<String, u64>,
 }
 
@@ -497,6 +502,7 @@ impl SegmentBuilder {
         flags: Option<u32>,
         align_pad_map: &mut HashMap<String, u64>,
     ) {
+        let zero_fill = flags == Some(S_ZEROFILL);
         let mut local_size = 0;
         let mut section_relative_offset = 0;
         let alignment_exponent = definitions
@@ -505,7 +511,9 @@ impl SegmentBuilder {
             .fold(min_alignment_exponent, std::cmp::max);
         // the section has to start as aligned as its first definition wants to be
         let pad = align_pad(*addr, alignment_exponent);
-        *offset += pad;
+        if !zero_fill {
+            *offset += pad;
+        }
         *addr += pad;
         *symbol_offset += pad;
         let mut def_iter = definitions.iter().peekable();
@@ -527,9 +535,13 @@ impl SegmentBuilder {
                     private: visibility == Visibility::Hidden && !def.decl.is_local(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            let def_size = match def.data {
+                Data::Blob(bytes) => bytes.len() as u64,
+                Data::ZeroInit(size) => *size as u64,
+            };
+            *symbol_offset += def_size;
+            section_relative_offset += def_size;
+            local_size += def_size;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -554,7 +566,9 @@ impl SegmentBuilder {
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
-        *offset += local_size;
+        if !zero_fill {
+            *offset += local_size;
+        }
         *addr += local_size;
         sections.insert(sectname.to_string(), section);
     }
@@ -682,6 +696,19 @@ impl SegmentBuilder {
             Some(S_CSTRING_LITERALS),
             &mut align_pad_map,
         );
+        for (idx, def) in custom_sections.iter().enumerate() {
+            Self::build_custom_section(
+                symtab,
+                &mut sections,
+                &mut offset,
+                &mut size,
+                &mut symbol_offset,
+                idx + NUM_DEFAULT_SECTIONS,
+                def,
+            );
+        }
+        let file_size = size;
+        // last, because it has addresses but no place in the file
         Self::build_section(
             symtab,
             "__bss",
@@ -690,23 +717,12 @@ impl SegmentBuilder {
             &mut offset,
             &mut size,
             &mut symbol_offset,
-            BSS_SECTION_INDEX,
+            NUM_DEFAULT_SECTIONS + custom_sections.len(),
             &zeroed_data,
             0,
             Some(S_ZEROFILL),
             &mut align_pad_map,
         );
-        for (idx, def) in custom_sections.iter().enumerate() {
-            Self::build_custom_section(
-                symtab,
-                &mut sections,
-                &mut offset,
-                &mut size,
-                &mut symbol_offset,
-                idx + NUM_DEFAULT_SECTIONS,
-                def,
-            );
-        }
         for (ref import, _) in artifact.imports() {
             symtab.insert(import, SymbolType::Undefined);
         }
@@ -717,7 +733,8 @@ impl SegmentBuilder {
             size, offset
         );
         SegmentBuilder {
-            size,
+            size: file_size,
+            vm_size: size,
             sections,
             offset,
             align_pad_map,
@@ -734,7 +751,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -744,13 +760,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -758,9 +773,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if let Data::ZeroInit(_) = def.data {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String && !d.is_writable() {
                         cstrings.push(def);
                     } else {
@@ -794,7 +808,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -855,8 +868,8 @@ impl<'a> Mach<'a> {
         segment_load_command.initprot = 7;
         segment_load_command.maxprot = 7;
         segment_load_command.filesize = self.segment.size();
-        // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        // segment size, with the __bss section added
+        segment_load_command.vmsize = self.segment.vm_size;
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
@@ -951,7 +964,6 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write custom sections
         //////////////////////////////
-        self.segment.write_pad(&mut file, BSS_SECTION_INDEX)?;
         for (idx, section) in self.sections.into_iter().enumerate() {
             self.segment.write_pad(&mut file, idx + NUM_DEFAULT_SECTIONS)?;
             if let Data::Blob(bytes) = section.data {
-- 
2.43.0


From bf0a430c366c08555aece2ef0853cd7f784dec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 16/26] fix: put each Mach-O relocation into the section that
 holds its source

---
 src/mach.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 10a62f4..574d5b4 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -401,6 +401,13 @@ impl SymbolTable {
             .and_then(|idx| self.symbols.get(&idx))
             .and_then(|sym| Some(sym.get_segment_relative_offset()))
     }
+    /// Lookup the section this symbol is defined in
+    pub fn section(&self, symbol_name: &str) -> Option<SectionIndex> {
+        self.strtable
+            .get(symbol_name)
+            .and_then(|idx| self.symbols.get(&idx))
+            .and_then(|sym| sym.section)
+    }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
         self.strtable
@@ -1029,8 +1036,6 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
@@ -1104,17 +1109,23 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        // where the source is: a custom section has no symbol, but all of a section
+        let from = if link.from.decl.is_section() {
+            segment
+                .sections
+                .get_full(link.from.name)
+                .map(|(section, _, _)| (section, 0))
+        } else {
+            symtab
+                .section(link.from.name)
+                .and_then(|section| Some((section, symtab.offset(link.from.name)?)))
+        };
+        match (from, symtab.index(link.to.name)) {
+            (Some((section, base_offset)), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
-                if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
-                } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
-                }
+                let builder = if absolute { builder.absolute() } else { builder };
+                segment.sections.get_index_mut(section).unwrap().1.relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From f288918d4500e90800cbc07f0257899cdccddb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 17/26] fix: refuse Mach-O links without a symbol to refer to
 instead of dropping them

---
 src/mach.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 574d5b4..c2b2779 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1,7 +1,8 @@
 //! The Mach 32/64 bit backend for transforming an artifact to a valid, mach-o object file.
 
 use crate::artifact::{
-    Data, DataType, Decl, DefinedDecl, Definition, ImportKind, Reloc, Scope, SectionKind, Visibility,
+    Data, DataType, Decl, DefinedDecl, Definition, ImportKind, LinkAndDecl, Reloc, Scope,
+    SectionKind, Visibility,
 };
 use crate::target::make_ctx;
 use crate::{Artifact, Ctx};
@@ -764,7 +765,7 @@ struct Mach<'a> {
 }
 
 impl<'a> Mach<'a> {
-    pub fn new(artifact: &'a Artifact) -> Self {
+    pub fn new(artifact: &'a Artifact) -> Result<Self, std::io::Error> {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
         let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
@@ -805,9 +806,9 @@ impl<'a> Mach<'a> {
             &mut symtab,
             &ctx,
         );
-        build_relocations(&mut segment, &artifact, &symtab);
+        build_relocations(&mut segment, &artifact, &symtab)?;
 
-        Mach {
+        Ok(Mach {
             ctx,
             architecture: artifact.target.architecture,
             symtab,
@@ -817,7 +818,7 @@ impl<'a> Mach<'a> {
             data,
             cstrings,
             sections,
-        }
+        })
     }
     fn header(&self, sizeofcmds: u64) -> Header {
         let mut header = Header::new(self.ctx);
@@ -1031,7 +1032,11 @@ impl<'a> Mach<'a> {
 }
 
 // FIXME: this should actually return a runtime error if we encounter a from.decl to.decl pair which we don't explicitly match on
-fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab: &SymbolTable) {
+fn build_relocations(
+    segment: &mut SegmentBuilder,
+    artifact: &Artifact,
+    symtab: &SymbolTable,
+) -> Result<(), std::io::Error> {
     use goblin::mach::relocation::{
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
@@ -1095,7 +1100,11 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 }
             }
             Reloc::Debug { size, .. } => {
-                if link.to.decl.is_section() {
+                let from_debug = match link.from.decl {
+                    Decl::Defined(DefinedDecl::Section(s)) => s.kind() == SectionKind::Debug,
+                    _ => false,
+                };
+                if from_debug && link.to.decl.is_section() {
                     // TODO: not sure if these are needed for Mach
                 } else {
                     match symtab.index(link.to.name) {
@@ -1103,7 +1112,7 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                             let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
                             segment.sections[link.from.name].relocations.push(builder.create());
                         }
-                        _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
+                        _ => return Err(missing_symbol(&link)),
                     }
                 }
                 continue;
@@ -1127,13 +1136,25 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 let builder = if absolute { builder.absolute() } else { builder };
                 segment.sections.get_index_mut(section).unwrap().1.relocations.push(builder.create());
             },
-            _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
+            _ => return Err(missing_symbol(&link)),
         }
     }
+    Ok(())
+}
+
+/// A link which cannot be expressed, because there is no symbol to refer to
+fn missing_symbol(link: &LinkAndDecl) -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::InvalidInput,
+        format!(
+            "relocation from {} to {} at {:#x} has a missing symbol",
+            link.from.name, link.to.name, link.at
+        ),
+    )
 }
 
 pub fn to_bytes(artifact: &Artifact) -> Result<Vec<u8>, std::io::Error> {
-    let mach = Mach::new(&artifact);
+    let mach = Mach::new(&artifact)?;
     let mut buffer = Cursor::new(Vec::new());
     mach.write(&mut buffer)?;
     Ok(buffer.into_inner())
-- 
2.43.0


From 76d4d359c419d7e64c49760d5667a5f34480354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 18/26] fix: refuse raw Mach-O relocation types the object
 cannot hold

---
 src/mach.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index c2b2779..f491093 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1092,7 +1092,8 @@ fn build_relocations(
                 }
             }
             Reloc::Raw { reloc, addend } => {
-                debug_assert!(reloc <= u8::max_value() as u32);
+                // the relocation type has four bits
+                assert!(reloc <= 0xf);
                 assert!(addend == 0);
                 match reloc as u8 {
                     R_ABS => (true, R_ABS),
-- 
2.43.0


From 361160ec2607ccadb8ed43358e72bf44039e4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 19/26] fix: keep Mach-O custom sections apart from the default
 sections of the same name

---
 src/mach.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index f491093..9526986 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -66,6 +66,8 @@ fn align_pad(offset: u64, align_exp: u64) -> u64 {
 }
 
 type SectionIndex = usize;
+/// The name of a section, and whether it is a custom one: those can have any name
+type SectionKey = (String, bool);
 type StrtableOffset = u64;
 
 const CODE_SECTION_INDEX: SectionIndex = 0;
@@ -465,7 +467,7 @@ impl SymbolTable {
 /// A Mach-o program segment
 struct SegmentBuilder {
     /// The sections that belong to this program segment
-    pub sections: IndexMap<String, SectionBuilder>,
+    pub sections: IndexMap<SectionKey, SectionBuilder>,
     /// A stupid offset value I need to refactor out
     pub offset: u64,
     size: u64,
@@ -500,7 +502,7 @@ impl SegmentBuilder {
         symtab: &mut SymbolTable,
         sectname: &'static str,
         segname: &'static str,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut IndexMap<SectionKey, SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -578,11 +580,11 @@ impl SegmentBuilder {
             *offset += local_size;
         }
         *addr += local_size;
-        sections.insert(sectname.to_string(), section);
+        sections.insert((sectname.to_string(), false), section);
     }
     fn build_custom_section(
         symtab: &mut SymbolTable,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut IndexMap<SectionKey, SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -642,7 +644,7 @@ impl SegmentBuilder {
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-        sections.insert(def.name.to_string(), section);
+        sections.insert((def.name.to_string(), true), section);
     }
     /// Create a new program segment from an `artifact`, symbol table, and context
     // FIXME: this is pub(crate) for now because we can't leak pub(crate) Definition
@@ -1111,7 +1113,7 @@ fn build_relocations(
                     match symtab.index(link.to.name) {
                         Some(to_symbol_index) => {
                             let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
-                            segment.sections[link.from.name].relocations.push(builder.create());
+                            segment.sections[&(link.from.name.to_string(), true)].relocations.push(builder.create());
                         }
                         _ => return Err(missing_symbol(&link)),
                     }
@@ -1123,7 +1125,7 @@ fn build_relocations(
         let from = if link.from.decl.is_section() {
             segment
                 .sections
-                .get_full(link.from.name)
+                .get_full(&(link.from.name.to_string(), true))
                 .map(|(section, _, _)| (section, 0))
         } else {
             symtab
-- 
2.43.0


From ad854ae01de4a74835cc90d7fa17b3e3faac6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 20/26] fix: refuse more Mach-O sections than symbols can be in

---
 src/mach.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mach.rs b/src/mach.rs
index 9526986..efd63f7 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -75,6 +75,8 @@ const DATA_SECTION_INDEX: SectionIndex = 1;
 const CSTRING_SECTION_INDEX: SectionIndex = 2;
 /// The sections in front of the custom ones; the zero-fill section follows those
 const NUM_DEFAULT_SECTIONS: SectionIndex = 3;
+/// The largest section ordinal a symbol can have
+const MAX_SECT: usize = 255;
 
 /// A builder for creating a 32/64 bit Mach-o Nlist symbol
 #[derive(Debug)]
@@ -797,6 +799,14 @@ impl<'a> Mach<'a> {
             }
         }
 
+        // the zero-fill section comes on top of these
+        if NUM_DEFAULT_SECTIONS + sections.len() + 1 > MAX_SECT {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("{} custom sections are too many", sections.len()),
+            ));
+        }
+
         let mut symtab = SymbolTable::new();
         let mut segment = SegmentBuilder::new(
             &artifact,
-- 
2.43.0


From 4e6f60d69cef338bb1a001e4e65244f6ca57a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:41 +0000
Subject: [PATCH 21/26] fix: lay out MIPS64 little-endian ELF relocation info
 as its readers expect

---
 src/elf.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index b185429..606c511 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -761,11 +761,18 @@ impl<'a> Elf<'a> {
             Decl::Import(_) => to_idx,
         };
 
-        let reloc = RelocationBuilder::new(reloc)
+        let mut reloc = RelocationBuilder::new(reloc)
             .sym(sym_idx)
             .offset(l.at)
             .addend(addend)
             .create();
+        if let (Architecture::Mips64(_), true) = (self.architecture, self.ctx.is_little_endian()) {
+            // Here `r_info` is not one little-endian number: the 32-bit symbol index comes first,
+            // and then the relocation types, a byte each with the first of them last.
+            let r_type = reloc.r_type.swap_bytes();
+            reloc.r_type = reloc.r_sym as u32;
+            reloc.r_sym = r_type as usize;
+        }
         self.add_reloc(l.from.name, reloc, from_idx, from_shndx)
     }
     fn add_reloc(&mut self, relocee: &str, reloc: Relocation, idx: usize, shndx: usize) {
-- 
2.43.0


From 88a0f8b89daa9ba3daacbf7cc45989cadb112087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 22/26] fix: pad Mach-O string literals with zeros, not with
 bytes that run into the next string

---
 src/mach.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index efd63f7..faa987e 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -974,8 +974,9 @@ impl<'a> Mach<'a> {
 
             if let Some(&align_pad) = self.segment.align_pad_map.get(cstring.name) {
                 for _ in 0..align_pad {
-                    // See comment above for explanation of 0xaa
-                    file.write_all(&[0xaa])?;
+                    // Linkers divide this section after every zero: anything else would become
+                    // the beginning of the next string.
+                    file.write_all(&[0])?;
                 }
             }
         }
-- 
2.43.0


From 95449229cb1c7f0a37a699d965f84cb1487558a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:12 +0000
Subject: [PATCH 23/26] fix: refuse ELF values that do not fit a 32-bit object

---
 src/elf.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 606c511..2984c63 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -821,6 +821,40 @@ impl<'a> Elf<'a> {
             *offset += sizeof_t - alignment;
         }
     }
+    /// Check that a 32-bit object, of this size, can hold the values its program consists of
+    fn check_32_bit(&self, size: u64) -> goblin::error::Result<()> {
+        if self.ctx.is_big() {
+            return Ok(());
+        }
+        let fits = |value: u64, what: &str| {
+            if value > u32::max_value().into() {
+                return Err(goblin::error::Error::Malformed(format!(
+                    "{} {:#x} does not fit a 32-bit object",
+                    what, value
+                )));
+            }
+            Ok(())
+        };
+        fits(size, "file size")?;
+        for section in self.sections.values() {
+            fits(section.header.sh_size, "section size")?;
+            fits(section.header.sh_addralign, "alignment")?;
+        }
+        for symbol in self.symbols.values() {
+            fits(symbol.st_value, "symbol offset")?;
+        }
+        for reloc in self.relocations.values().flat_map(|(_, relocs)| relocs) {
+            fits(reloc.r_offset, "relocation offset")?;
+            // which shares its 32 bits with the index of the symbol
+            if reloc.r_type > 0xff {
+                return Err(goblin::error::Error::Malformed(format!(
+                    "relocation type {:#x} does not fit a 32-bit object",
+                    reloc.r_type
+                )));
+            }
+        }
+        Ok(())
+    }
     pub fn write<T: Write + Seek>(mut self, file: T) -> goblin::error::Result<()> {
         use goblin::elf::section_header::{SHN_LORESERVE, SHN_XINDEX};
         let mut file = BufWriter::new(file);
@@ -865,6 +899,7 @@ impl<'a> Elf<'a> {
         let mut sh_offset = reloc_offset + sizeof_relocs as u64;
         let shdr_align = self.ctx.size() as u64;
         Self::align(&mut sh_offset, shdr_align);
+        self.check_32_bit(sh_offset + u64::from(self.nsections) * Section::size(self.ctx) as u64)?;
 
         info!(
             "strtab: {:#x} symtab {:#x} relocs {:#x} sh_offset {:#x}",
-- 
2.43.0


From c0947a872caa90a0cad6f3f1eea1785c873e65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:15 +0000
Subject: [PATCH 24/26] fix: refuse Mach-O values that do not fit their fields

---
 src/mach.rs | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index faa987e..895d8ba 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -807,6 +807,22 @@ impl<'a> Mach<'a> {
             ));
         }
 
+        // no address may overflow
+        let size: u128 = artifact
+            .definitions()
+            .map(|def| {
+                let size = match def.data {
+                    Data::Blob(bytes) => bytes.len() as u128,
+                    Data::ZeroInit(size) => *size as u128,
+                };
+                let symbols = def.symbols.values().max().copied().unwrap_or(0);
+                size + u128::from(def.decl.get_align().unwrap_or(16)) + u128::from(symbols)
+            })
+            .sum();
+        if size > i64::max_value() as u128 {
+            return Err(too_large("address", i64::max_value() as u64));
+        }
+
         let mut symtab = SymbolTable::new();
         let mut segment = SegmentBuilder::new(
             &artifact,
@@ -818,6 +834,15 @@ impl<'a> Mach<'a> {
             &mut symtab,
             &ctx,
         );
+        if !ctx.is_big() {
+            let symbols = symtab.symbols.values().map(|symbol| symbol.offset);
+            if let Some(address) = symbols
+                .chain(std::iter::once(segment.vm_size))
+                .find(|address| *address > u32::max_value().into())
+            {
+                return Err(too_large("address", address));
+            }
+        }
         build_relocations(&mut segment, &artifact, &symtab)?;
 
         Ok(Mach {
@@ -873,6 +898,10 @@ impl<'a> Mach<'a> {
             debug!("Section: {:#?}", header);
             raw_sections.iowrite_with(header, self.ctx)?;
         }
+        // that is where the file ends now
+        if relocation_offset > u32::max_value().into() {
+            return Err(too_large("file offset", relocation_offset));
+        }
         let raw_sections = raw_sections.into_inner();
         debug!(
             "Raw sections len: {} - Section start: {} Strtable size: {} - Segment size: {}",
@@ -1123,7 +1152,8 @@ fn build_relocations(
                 } else {
                     match symtab.index(link.to.name) {
                         Some(to_symbol_index) => {
-                            let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
+                            let address = relocation_address(0, link.at)?;
+                            let builder = RelocationBuilder::new(to_symbol_index, address, X86_64_RELOC_UNSIGNED).absolute().size(size);
                             segment.sections[&(link.from.name.to_string(), true)].relocations.push(builder.create());
                         }
                         _ => return Err(missing_symbol(&link)),
@@ -1145,8 +1175,9 @@ fn build_relocations(
         };
         match (from, symtab.index(link.to.name)) {
             (Some((section, base_offset)), Some(to_symbol_index)) => {
-                debug!("{} offset: {}", link.to.name, base_offset + link.at);
-                let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
+                let address = relocation_address(base_offset, link.at)?;
+                debug!("{} offset: {}", link.to.name, address);
+                let builder = RelocationBuilder::new(to_symbol_index, address, reloc);
                 let builder = if absolute { builder.absolute() } else { builder };
                 segment.sections.get_index_mut(section).unwrap().1.relocations.push(builder.create());
             },
@@ -1156,6 +1187,22 @@ fn build_relocations(
     Ok(())
 }
 
+/// Where in its section a relocation is: in 31 bits, because the next one marks another format
+fn relocation_address(base: u64, at: u64) -> Result<u64, std::io::Error> {
+    match base.checked_add(at) {
+        Some(address) if address <= i32::max_value() as u64 => Ok(address),
+        _ => Err(too_large("relocation offset", at)),
+    }
+}
+
+/// A value which does not fit the field for it
+fn too_large(what: &str, value: u64) -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::InvalidInput,
+        format!("{} {:#x} is too large", what, value),
+    )
+}
+
 /// A link which cannot be expressed, because there is no symbol to refer to
 fn missing_symbol(link: &LinkAndDecl) -> std::io::Error {
     std::io::Error::new(
-- 
2.43.0


From 4dba75f841e7eace32b5c2932e368b8bd6106972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:45 +0000
Subject: [PATCH 25/26] fix: lay out the bit fields of Mach-O relocations as
 the byte order of the target asks

---
 src/mach.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mach.rs b/src/mach.rs
index 895d8ba..8dfecaa 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -245,6 +245,19 @@ impl RelocationBuilder {
     }
 }
 
+/// The bit fields of a relocation are laid out from the other end on big-endian targets
+fn target_bit_fields(reloc: RelocationInfo, ctx: &Ctx) -> RelocationInfo {
+    if ctx.is_little_endian() {
+        return reloc;
+    }
+    let r_info = (reloc.r_symbolnum() as u32) << 8
+        | (reloc.r_pcrel() as u32) << 7
+        | (reloc.r_length() as u32) << 5
+        | (reloc.r_extern() as u32) << 4
+        | reloc.r_type() as u32;
+    RelocationInfo { r_info, ..reloc }
+}
+
 /// Helper to build sections
 #[derive(Debug, Clone)]
 struct SectionBuilder {
@@ -1062,6 +1075,7 @@ impl<'a> Mach<'a> {
             debug!("Relocations: {}", section.relocations.len());
             for reloc in section.relocations.iter().cloned() {
                 debug!("  {:?}", reloc);
+                let reloc = target_bit_fields(reloc, &self.ctx);
                 file.iowrite_with(reloc, self.ctx.le)?;
             }
         }
-- 
2.43.0


From aa318dc7454f1825c97c7bf117f44e055190bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:45 +0000
Subject: [PATCH 26/26] fix: Mach-O links to addresses on 32-bit targets are
 four bytes wide

---
 src/mach.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index 8dfecaa..3d0740d 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1098,6 +1098,7 @@ fn build_relocations(
         X86_64_RELOC_UNSIGNED,
     };
     debug!("Generating relocations");
+    let address_size = if make_ctx(&artifact.target).is_big() { 8 } else { 4 };
     for link in artifact.links() {
         debug!(
             "Import links for: from {} to {} at {:#x} with {:?}",
@@ -1192,7 +1193,7 @@ fn build_relocations(
                 let address = relocation_address(base_offset, link.at)?;
                 debug!("{} offset: {}", link.to.name, address);
                 let builder = RelocationBuilder::new(to_symbol_index, address, reloc);
-                let builder = if absolute { builder.absolute() } else { builder };
+                let builder = if absolute { builder.absolute().size(address_size) } else { builder };
                 segment.sections.get_index_mut(section).unwrap().1.relocations.push(builder.create());
             },
             _ => return Err(missing_symbol(&link)),
-- 
2.43.0

