From afabfe8c30fcefe5c0daa9596f06f26d5ee8bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:10 +0000
Subject: [PATCH 01/78] fix: a definition that follows a reference replaces it
 entirely

Only the section index of the definition was copied into a symbol that
had been referenced before with an equal or higher binding; its value,
size, type and binding were lost.
---
 src/elf/symbol_table.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9cee311..65dc154 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -112,14 +112,18 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
-                if !old_sym.higher_bind_than(new_sym) {
+                if new_sym.is_undefined() {
+                    // a reference never replaces anything, but a strong one makes a weak
+                    // reference strong
+                    if old_sym.is_undefined() && !old_sym.higher_bind_than(new_sym) {
+                        old_sym.st_info = new_sym.st_info;
+                    }
+                } else if old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym) {
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
-                } else if old_sym.st_shndx == SHN_UNDEF as u16 {
-                    old_sym.st_shndx = new_sym.st_shndx;
                 }
             }
             Entry::Vacant(v) => {
-- 
2.43.0


From 6f39e5ce5ee18821929afd30db4d038125ba16ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:16 +0000
Subject: [PATCH 02/78] fix: name the object that defines a symbol in the
 duplicate definition error

The object that first mentioned the symbol was named instead.
---
 src/elf/symbol_table.rs | 1 +
 src/symbol.rs           | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 65dc154..c063a01 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -124,6 +124,7 @@ impl<'p> SymbolTable<'p> {
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
+                    old_sym.set_reference(reference);
                 }
             }
             Entry::Vacant(v) => {
diff --git a/src/symbol.rs b/src/symbol.rs
index fcabbf6..e7bed27 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -74,6 +74,10 @@ impl<'r> Symbol<'r> {
         self.reference
     }
 
+    pub fn set_reference(&mut self, reference: &'r Path) {
+        self.reference = reference;
+    }
+
     pub const fn got_offset(&self) -> Option<usize> {
         self.in_got
     }
-- 
2.43.0


From ddf8dc038181842536941cdccbe5d02bf90df2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:33 +0000
Subject: [PATCH 03/78] fix: give a symbol only the address of the definition
 that was taken

When a symbol had several definitions, every section that defines it
registered it, and the addresses of all of them were added up.
---
 src/elf.rs              | 40 ++++++++++++++++++++++------------------
 src/elf/chunk.rs        |  4 ++++
 src/elf/symbol_table.rs | 24 +++++++++++++++++++++---
 src/lib.rs              |  2 +-
 4 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f4416c..3979d86 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -44,7 +44,7 @@ mod string_table;
 pub use string_table::StringTable;
 
 mod symbol_table;
-pub use symbol_table::{GnuHashTable, HashTable, SymbolRef, SymbolTable};
+pub use symbol_table::{Added, GnuHashTable, HashTable, SymbolRef, SymbolTable};
 
 use self::chunk::Chunk;
 
@@ -430,27 +430,20 @@ impl<'d> Writer<'d> {
 
     fn add_symbol_inner<'s>(
         mut elf_sym: Sym,
-        section: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
         symbol_names: &mut StringTable,
         symbols: &mut SymbolTable<'d>,
-    ) -> Result<SymbolRef, ErrorType> {
+    ) -> Result<(SymbolRef, Added), ErrorType> {
         let name: Name = name.to_string().into();
         let hash = name.elf_hash();
         let gnu_hash = name.elf_gnu_hash();
         let st_name = symbol_names.get_or_create(name.clone()).offset as u32;
         elf_sym.st_name = st_name;
         log::trace!("name: '{}' -> sym: {:?}", &name as &str, elf_sym);
-        let r = symbols
+        symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
-            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
-        if let Some(section_ref) = section {
-            if elf_sym.st_shndx != SHN_ABS as u16 {
-                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
-            }
-        }
-        Ok(r)
+            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))
     }
 
     pub fn add_symbol<'s>(
@@ -460,21 +453,32 @@ impl<'d> Writer<'d> {
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
-        Self::add_symbol_inner(
+        let (r, added) = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
-        )
-        .map(Some)
+        )?;
+        if added == Added::Replaced {
+            for section in &self.sections {
+                for chunk in section.write().chunks_mut() {
+                    chunk.remove_symbol(r);
+                }
+            }
+        }
+        // only the definition that was taken gets the address of its chunk
+        if let Some(section_ref) = sec_ref {
+            if added != Added::Ignored && elf_sym.st_shndx != SHN_ABS as u16 {
+                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+            }
+        }
+        Ok(Some(r))
     }
 
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -482,12 +486,12 @@ impl<'d> Writer<'d> {
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
-        );
+        )
+        .map(|(r, _)| r);
         if let Ok(dyn_ref) = r {
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c0ab8c0..40fa35d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -24,6 +24,10 @@ impl Chunk {
         self.symbols.insert(sym_ref);
     }
 
+    pub fn remove_symbol(&mut self, sym_ref: SymbolRef) {
+        self.symbols.remove(&sym_ref);
+    }
+
     pub fn add_relocation(&mut self, reloc: Rela, sym_ref: SymbolRef) {
         self.relocations.push((reloc, sym_ref));
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index c063a01..ed158b2 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -43,6 +43,17 @@ pub enum Error {
     AlreadyDefined(PathBuf),
 }
 
+/// What became of a symbol that was added to a table.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Added {
+    /// The table holds the symbol.
+    Taken,
+    /// The table holds the symbol instead of another definition.
+    Replaced,
+    /// The table already held a symbol that takes precedence.
+    Ignored,
+}
+
 #[derive(Debug)]
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
@@ -82,7 +93,8 @@ impl<'p> SymbolTable<'p> {
         hash: u32,
         gnu_hash: u32,
         reference: &'p Path,
-    ) -> Result<SymbolRef, Error> {
+    ) -> Result<(SymbolRef, Added), Error> {
+        let mut added = Added::Taken;
         let st_name = elf_sym.st_name;
         let st_type = st_type(elf_sym.st_info);
         let new_sym = Symbol::new(elf_sym, hash, gnu_hash, reference);
@@ -94,7 +106,7 @@ impl<'p> SymbolTable<'p> {
                 .or_insert_with(|| vec![new_sym])
                 .len()
                 - 1;
-            return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
+            return Ok((SymbolRef::Section(elf_sym.st_shndx, len), added));
         }
         match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
@@ -118,13 +130,19 @@ impl<'p> SymbolTable<'p> {
                     if old_sym.is_undefined() && !old_sym.higher_bind_than(new_sym) {
                         old_sym.st_info = new_sym.st_info;
                     }
+                    added = Added::Ignored;
                 } else if old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym) {
+                    if !old_sym.is_undefined() {
+                        added = Added::Replaced;
+                    }
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
                     old_sym.set_reference(reference);
+                } else {
+                    added = Added::Ignored;
                 }
             }
             Entry::Vacant(v) => {
@@ -134,7 +152,7 @@ impl<'p> SymbolTable<'p> {
                 v.insert(new_sym);
             }
         };
-        Ok(SymbolRef::Named(st_name))
+        Ok((SymbolRef::Named(st_name), added))
     }
 
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
diff --git a/src/lib.rs b/src/lib.rs
index 7dbd032..482cb78 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -173,7 +173,7 @@ impl Linker {
                     if name == inner_name {
                         *entry.1 = true;
                         writer
-                            .add_dyn_symbol(sym.into(), None, inner_name, path)
+                            .add_dyn_symbol(sym.into(), inner_name, path)
                             .map_path_err(path)?;
                         writer.add_needed(path.file_name().unwrap().to_str().unwrap());
                     }
-- 
2.43.0


From f8b5469d8af540a93f29e14473d7446d61ecb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:26 +0000
Subject: [PATCH 04/78] fix: keep local symbols private to the object that
 defines them

Local symbols were looked up by name across objects, so that two objects
with a local symbol of the same name, or a local and a global one, shared
one definition, and locals of one object with equal attributes were
conflated.
---
 src/elf.rs              | 20 +++++++++++++-------
 src/elf/symbol_table.rs | 20 +++++++++++++++++---
 src/lib.rs              | 37 +++++--------------------------------
 3 files changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3979d86..84e8daa 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -691,9 +691,11 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__init_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    if let Some(symbol) = symbols.get_mut(sym_ref) {
+                        symbol.st_value = section.size_on_disk();
+                        let chunk_index = section.last_chunk_index();
+                        section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    }
                 }
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
                 if let Some(s) = symbol_names.get("__fini_array_start") {
@@ -702,9 +704,11 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__fini_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    if let Some(symbol) = symbols.get_mut(sym_ref) {
+                        symbol.st_value = section.size_on_disk();
+                        let chunk_index = section.last_chunk_index();
+                        section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    }
                 }
             }
         }
@@ -935,7 +939,9 @@ impl<'d> Writer<'d> {
             self.sym_str_section.read().inner::<StringTable>().unwrap().get("_start")
         {
             let symbols = as_sym_tab(&self.sym_section);
-            self.eh.e_entry = symbols[SymbolRef::Named(entry.offset as u32)].st_value;
+            if let Some(symbol) = symbols.get(SymbolRef::Named(entry.offset as u32)) {
+                self.eh.e_entry = symbol.st_value;
+            }
         }
         self.eh.e_shnum = self.sections.len() as u16;
         self.eh.e_phnum = self.program_headers.len() as u16;
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index ed158b2..ecd4d0a 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -24,6 +24,8 @@ pub enum SymbolRef {
     Named(u32),
     // section + number
     Section(u16, usize),
+    // index into the table's local symbols
+    Local(usize),
 }
 
 impl SymbolRef {
@@ -31,7 +33,7 @@ impl SymbolRef {
         if let Self::Named(n) = self {
             *n
         } else {
-            // SECTION symbols don't have a name
+            // SECTION and local symbols aren't found by name
             0
         }
     }
@@ -58,6 +60,8 @@ pub enum Added {
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
+    // local symbols, which are private to their object
+    locals: Vec<Symbol<'p>>,
     num_locals: usize,
     is_dynamic: bool,
 }
@@ -67,6 +71,7 @@ impl Default for SymbolTable<'_> {
         let mut table = Self {
             symbols: Default::default(),
             section_syms: Default::default(),
+            locals: vec![],
             num_locals: 0,
             is_dynamic: false,
         };
@@ -108,6 +113,12 @@ impl<'p> SymbolTable<'p> {
                 - 1;
             return Ok((SymbolRef::Section(elf_sym.st_shndx, len), added));
         }
+        // the null symbol is the only local one that all objects share
+        if new_sym.is_local() && (st_name != 0 || !new_sym.is_undefined()) {
+            self.num_locals += 1;
+            self.locals.push(new_sym);
+            return Ok((SymbolRef::Local(self.locals.len() - 1), added));
+        }
         match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
@@ -159,6 +170,7 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
             SymbolRef::Section(s, i) => self.section_syms.get(&s).map(|s| &s[i]),
+            SymbolRef::Local(i) => self.locals.get(i),
         }
     }
 
@@ -166,11 +178,12 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get_mut(&n),
             SymbolRef::Section(s, i) => self.section_syms.get_mut(&s).map(|s| &mut s[i]),
+            SymbolRef::Local(i) => self.locals.get_mut(i),
         }
     }
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
-        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
+        let mut syms: Vec<&Symbol<'p>> = self.locals.iter().chain(self.symbols.values()).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
@@ -190,7 +203,7 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn total_len(&self) -> usize {
-        self.symbols.len() * size_of::<Sym>()
+        (self.symbols.len() + self.locals.len()) * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -281,6 +294,7 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
         match index {
             SymbolRef::Named(n) => &self.symbols[&n],
             SymbolRef::Section(s, i) => &self.section_syms[&s][i],
+            SymbolRef::Local(i) => &self.locals[i],
         }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 482cb78..ddfbc05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::{sym::Sym, Elf},
+    elf::Elf,
     elf64::{
         reloc::Rela,
         section_header::{
@@ -19,37 +19,12 @@ use goblin::{
 use std::{
     collections::{HashMap, HashSet},
     fs::read,
-    hash::{Hash, Hasher},
     path::{Path, PathBuf},
 };
 
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
-struct Symbol(Sym);
-
-impl PartialEq for Symbol {
-    fn eq(&self, s2: &Self) -> bool {
-        self.0.st_name == s2.0.st_name
-            && self.0.st_info == s2.0.st_info
-            && self.0.st_other == s2.0.st_other
-            && self.0.st_shndx == s2.0.st_shndx
-            && self.0.st_size == s2.0.st_size
-    }
-}
-
-impl Eq for Symbol {}
-
-impl Hash for Symbol {
-    fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.st_name.hash(state);
-        self.0.st_info.hash(state);
-        self.0.st_other.hash(state);
-        self.0.st_shndx.hash(state);
-        self.0.st_size.hash(state);
-    }
-}
-
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -59,7 +34,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     input: &'i Input<'p, 'd>,
     elf: Elf<'e>,
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
-    symbols: HashMap<Symbol, elf::SymbolRef>,
+    // indexed like the symbol table of the object
+    symbols: Vec<Option<elf::SymbolRef>>,
 }
 
 impl<'p, 'd> Input<'p, 'd> {
@@ -110,9 +86,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
-            if let Some(sym) = symbol_ref {
-                self.symbols.insert(Symbol(symbol), sym);
-            }
+            self.symbols.push(symbol_ref);
         }
         Ok(())
     }
@@ -121,13 +95,12 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
                 let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
                     sec.clone()
                 } else {
                     continue;
                 };
-                let symbol = if let Some(sym) = self.symbols.get(&Symbol(*symbol)) {
+                let symbol = if let Some(Some(sym)) = self.symbols.get(rel.r_sym) {
                     sym
                 } else {
                     continue;
-- 
2.43.0


From bc4fcd63084b4827f8b44baa2147e0a5f2f0ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:27 +0000
Subject: [PATCH 05/78] fix: apply relocations to the section that sh_info
 names

The section before the relocation section was assumed to be the target.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ddfbc05..fe0f90a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,8 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
+                let target = elf.section_headers[*section_index].sh_info as usize;
+                let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
                     continue;
-- 
2.43.0


From e989842d85c8d88eb657307006902056d2f85c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:28 +0000
Subject: [PATCH 06/78] fix: apply relocations that have no symbol

The field of a relocation against symbol 0, whose value is zero, was left
as it was.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe0f90a..389bc1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -94,7 +94,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
-            for rel in rels.iter().filter(|r| r.r_sym != 0) {
+            for rel in rels.iter() {
                 let target = elf.section_headers[*section_index].sh_info as usize;
                 let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
-- 
2.43.0


From 1d6e2cac934930ec2e6fde1cdc58d736134fd202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:26 +0000
Subject: [PATCH 07/78] fix: give every zero-initialised contribution its own
 space

Sections without file contents had no chunk, so that those of several
objects overlapped, as did anything that follows them in a section of the
same name.
---
 src/elf.rs         | 23 +++++++++++++++--------
 src/elf/chunk.rs   | 20 +++++++++++++++++++-
 src/elf/section.rs |  8 ++++----
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 84e8daa..1d1c401 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_PROGBITS, SHT_RELA,
-        SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS,
+        SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -386,6 +386,10 @@ impl<'d> Writer<'d> {
     ) -> SectionRef<'d> {
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+        let new_chunk = match data {
+            Some(data) => Chunk::from(data),
+            None => Chunk::zeroed(sh.sh_size),
+        };
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -400,7 +404,7 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let sh = Section::builder(sh).with_chunk(data.unwrap_or_default()).build();
+            let sh = Section::builder(sh).with_chunk(new_chunk).build();
             self.sections.push(Arc::clone(&sh));
             (sh, 0)
         } else {
@@ -408,11 +412,14 @@ impl<'d> Writer<'d> {
             let mut section = self.sections[entry.index].write();
             section.sh_size += sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            let chunk = if let Some(data) = data {
-                section.add_chunk(Chunk::from(data))
-            } else {
-                section.last_chunk_index()
-            };
+            let chunk = section.add_chunk(new_chunk);
+            // the file holds either all or nothing of a section
+            if section.sh_type == SHT_NOBITS && sh.sh_type != SHT_NOBITS {
+                section.sh_type = sh.sh_type;
+            }
+            if section.sh_type != SHT_NOBITS {
+                section.chunks_mut().iter_mut().for_each(Chunk::materialize);
+            }
             (section_ptr, chunk)
         };
         SectionRef { section, chunk }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 40fa35d..3cb6d6a 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -11,13 +11,31 @@ use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 pub struct Chunk {
     address: Option<u64>,
     data: Vec<u8>,
+    // zero-initialised bytes after `data` that take no space in the file
+    zeroes: u64,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
 }
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, symbols: Default::default(), relocations: vec![] }
+        Self { address: None, data, zeroes: 0, symbols: Default::default(), relocations: vec![] }
+    }
+
+    /// A chunk of a section that takes no space in the file.
+    pub fn zeroed(size: u64) -> Self {
+        Self { zeroes: size, ..Self::new(vec![]) }
+    }
+
+    /// The size of the chunk in memory.
+    pub fn size(&self) -> u64 {
+        self.data.len() as u64 + self.zeroes
+    }
+
+    /// Moves the zero-initialised bytes into the file.
+    pub fn materialize(&mut self) {
+        self.data.resize(self.size() as usize, 0);
+        self.zeroes = 0;
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 87e0655..b81b475 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -47,8 +47,8 @@ impl<'p> SectionBuilder<'p> {
         self
     }
 
-    pub fn with_chunk(mut self, data: Vec<u8>) -> Self {
-        self.section.chunks.push(data.into());
+    pub fn with_chunk(mut self, chunk: Chunk) -> Self {
+        self.section.chunks.push(chunk);
         self
     }
 
@@ -196,7 +196,7 @@ impl<'p> Section<'p> {
         let mut base_addr = self.sh_addr;
         for chunk in &mut self.chunks {
             chunk.set_address(base_addr);
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
@@ -214,7 +214,7 @@ impl<'p> Section<'p> {
                     }
                 }
             }
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
-- 
2.43.0


From 801628081b1cd95ce620ffb21ba36d3d59948fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:28 +0000
Subject: [PATCH 08/78] fix: align every contribution to an output section

Contributions were placed next to each other whatever their alignment.
---
 src/elf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 1d1c401..39efeb9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -410,7 +410,11 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
-            section.sh_size += sh.sh_size;
+            let padding = round_to(section.sh_size, sh.sh_addralign) - section.sh_size;
+            if padding != 0 {
+                section.add_chunk(Chunk::zeroed(padding));
+            }
+            section.sh_size += padding + sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
             let chunk = section.add_chunk(new_chunk);
             // the file holds either all or nothing of a section
-- 
2.43.0


From 9b05b90664c71daec39048c24c26b7fdb80ef8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:29 +0000
Subject: [PATCH 09/78] fix: PT_INTERP and PT_DYNAMIC hold the address of their
 section

They held the end of the section before, which is not the same when the
section starts a page or is aligned.
---
 src/elf.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 39efeb9..a81d0a1 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1043,7 +1043,6 @@ impl<'d> Writer<'d> {
         let mut flags = 0;
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
-            let old_p_vaddr = self.p_vaddr;
             let mut sh = sh.write();
             if sh.sh_flags != flags {
                 // push old program header
@@ -1085,8 +1084,8 @@ impl<'d> Writer<'d> {
                         p_flags: PF_R | write,
                         p_align: sh.sh_addralign,
                         p_offset: sh.sh_offset,
-                        p_vaddr: old_p_vaddr,
-                        p_paddr: old_p_vaddr,
+                        p_vaddr: sh.sh_addr,
+                        p_paddr: sh.sh_addr,
                         p_filesz: sh.size_on_disk(),
                         p_memsz: sh.sh_size,
                     },
-- 
2.43.0


From f11bfe8e1fa21b2e9b79eb2e37247668dfba0017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:55 +0000
Subject: [PATCH 10/78] fix: align output sections within their segment

Only the first section of a segment was aligned, and that to a page only.
---
 src/elf.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a81d0a1..e9e531b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1063,13 +1063,18 @@ impl<'d> Writer<'d> {
                 }
                 flags = sh.sh_flags;
             } else {
-                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
                 if let Some(ph) = program_header.as_mut() {
-                    ph.p_filesz += sh.size_on_disk();
-                    ph.p_memsz += sh.sh_size;
-                    sh.set_address(self.p_vaddr);
-                    self.p_vaddr += sh.sh_size;
+                    let address = round_to(self.p_vaddr, sh.sh_addralign);
+                    let padding = address - self.p_vaddr;
+                    if sh.sh_type != SHT_NOBITS {
+                        self.file_offset += padding;
+                        ph.p_filesz += padding + sh.sh_size;
+                    }
+                    ph.p_memsz += padding + sh.sh_size;
+                    sh.set_address(address);
+                    self.p_vaddr = address + sh.sh_size;
                 }
+                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
             }
             let sh = WGuard::downgrade(sh);
             if let Some(p_type) =
@@ -1144,7 +1149,8 @@ fn get_load_program_header(
         let extra_data = extra_data.take().unwrap_or_default();
         let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
         let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };
-        *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT);
+        *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT.max(sh.sh_addralign));
+        let extra_data = round_to(*p_vaddr + extra_data, sh.sh_addralign) - *p_vaddr;
         sh.set_address(*p_vaddr + extra_data);
         *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);
         let sh_size_on_disk = sh.size_on_disk() + extra_data;
-- 
2.43.0


From 387d277db779975dbc712cff99c57bbfaae92f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:57 +0000
Subject: [PATCH 11/78] fix: place zero-initialised sections last in their
 segment

One that came before a section with contents shifted the contents of the
latter against its address.
---
 src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index e9e531b..cf0f37e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1247,7 +1247,10 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
     match s1.sh_flags.cmp(&s2.sh_flags) {
-        Ordering::Equal => s1.sh_addralign.cmp(&s2.sh_addralign).reverse(),
+        // what takes no space in the file comes last in its segment
+        Ordering::Equal => (s1.sh_type == SHT_NOBITS)
+            .cmp(&(s2.sh_type == SHT_NOBITS))
+            .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
         // no flags should come last
         o => {
             if s1.sh_flags == 0 {
-- 
2.43.0


From 6722c84839636ecca7bd994446d77d5414fa3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:59 +0000
Subject: [PATCH 12/78] fix: reserve the space of copied objects before
 sections are placed

.copyrel was laid out with size zero and overlapped what follows it.
---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index cf0f37e..aa112ce 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -884,6 +884,8 @@ impl<'d> Writer<'d> {
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            // the slots are known only now
+            self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
-- 
2.43.0


From ca3a04a1607034dbe2f2001ccdfbbd1cddf90587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:01 +0000
Subject: [PATCH 13/78] fix: align the slots of copied objects

---
 src/elf/copy_rel.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 273839d..e2f7e6f 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -7,6 +7,9 @@ use super::{
     Section, SymbolRef,
 };
 
+/// The alignment of the objects isn't known, this is enough for any usual one.
+const SLOT_ALIGNMENT: u64 = 64;
+
 #[derive(Default)]
 pub struct CopyRel {
     // the total size of the section
@@ -17,9 +20,9 @@ pub struct CopyRel {
 
 impl CopyRel {
     pub fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
-        let offset = self.size;
+        let offset = (self.size + SLOT_ALIGNMENT - 1) / SLOT_ALIGNMENT * SLOT_ALIGNMENT;
         self.slots.insert(sym, offset);
-        self.size += size;
+        self.size = offset + size;
         offset
     }
 }
@@ -29,7 +32,7 @@ impl<'p> Synthesized<'p> for CopyRel {
         *sh = SectionHeader {
             sh_type: SHT_NOBITS,
             sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
-            sh_addralign: 64,
+            sh_addralign: SLOT_ALIGNMENT,
             ..*sh
         }
     }
-- 
2.43.0


From 2eadc5094e370c5302ee2079c061fbe20f512c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:55 +0000
Subject: [PATCH 14/78] fix: make the output a function of the inputs

Archives, search directories, archive members, undefined symbols, dynamic
relocations and equally hashed symbols were visited in the random order of
hash tables.
---
 src/elf.rs              | 12 +++++++++---
 src/elf/symbol_table.rs |  4 +++-
 src/lib.rs              | 30 +++++++++++++++---------------
 src/main.rs             | 15 +++++++++------
 4 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index aa112ce..c318abb 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -540,6 +540,8 @@ impl<'d> Writer<'d> {
                 undefined.push(SymbolRef::Named(*st_name));
             }
         }
+        // the order in which the symbols were met
+        undefined.sort_unstable_by_key(SymbolRef::st_name);
         undefined
     }
 
@@ -860,9 +862,13 @@ impl<'d> Writer<'d> {
             let mut dyn_syms = as_mut_sym_tab(&self.dyn_sym_section);
             let section_names = as_str_tab(&self.shstr_section);
 
-            for (sym, dyn_sym) in
-                symbols.named_mut().values_mut().filter_map(|s| s.dynamic().map(|d| (s, d)))
-            {
+            let mut imports = symbols
+                .named_mut()
+                .values_mut()
+                .filter_map(|s| s.dynamic().map(|d| (s, d)))
+                .collect::<Vec<_>>();
+            imports.sort_unstable_by_key(|(_, d)| d.st_name());
+            for (sym, dyn_sym) in imports {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
                     self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index ecd4d0a..68b9866 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -304,7 +304,9 @@ fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
     let b1 = if s1.is_local() { 0 } else { 1 };
     let b2 = if s2.is_local() { 0 } else { 1 };
     match b1.cmp(&b2) {
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()),
+        Ordering::Equal => {
+            s1.gnu_hash().cmp(&s2.gnu_hash()).then(s1.st_name.cmp(&s2.st_name))
+        }
         c => c,
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 389bc1b..d5c7051 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::read,
     path::{Path, PathBuf},
 };
@@ -121,7 +121,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: HashSet<PathBuf>,
+    pub archives: Vec<PathBuf>,
 }
 
 impl Linker {
@@ -130,14 +130,13 @@ impl Linker {
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+        let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
         for (lib, _) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).unwrap();
-            for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
+            for entry in undefines.iter_mut().filter(|(_, v)| !*v) {
+                let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
                 } else {
                     continue;
@@ -145,7 +144,7 @@ impl Linker {
                 for sym in &elf.dynsyms {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
-                        *entry.1 = true;
+                        entry.1 = true;
                         writer
                             .add_dyn_symbol(sym.into(), inner_name, path)
                             .map_path_err(path)?;
@@ -153,7 +152,7 @@ impl Linker {
                     }
                 }
             }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|(_, found)| !*found);
         }
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
@@ -163,22 +162,23 @@ impl Linker {
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+        let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
         for ar in &self.archives {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = HashSet::new();
+            let mut members = Vec::new();
             for entry in &mut undefines {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
+                let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name
                 } else {
                     continue;
                 };
                 if let Some(member) = ar.member_of_symbol(&*name) {
-                    *entry.1 = true;
-                    members.insert(member);
+                    entry.1 = true;
+                    if !members.contains(&member) {
+                        members.push(member);
+                    }
                 }
             }
             for member in members {
@@ -191,7 +191,7 @@ impl Linker {
                 elf.process_symbols(writer)?;
                 elf.process_relocations(writer)?;
             }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|(_, found)| !*found);
         }
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
diff --git a/src/main.rs b/src/main.rs
index 45d6b40..bb1642f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
+use std::{io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -31,8 +31,8 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: HashSet<PathBuf>,
-    search_paths: HashSet<PathBuf>,
+    archives: Vec<PathBuf>,
+    search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
@@ -148,7 +148,7 @@ fn handle_linker_args(
             "-L" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-L'.".to_string())?;
-                app.search_paths.insert(path.into());
+                app.search_paths.push(path.into());
                 continue;
             }
             "-l" => {
@@ -179,7 +179,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.insert(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(PathBuf::from(arg).canonicalize().unwrap());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
@@ -220,7 +220,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.objects.push(lib.canonicalize().unwrap());
                 }
                 FileType::Archive => {
-                    args.archives.insert(lib.canonicalize().unwrap());
+                    let archive = lib.canonicalize().unwrap();
+                    if !args.archives.contains(&archive) {
+                        args.archives.push(archive);
+                    }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
                 FileType::Text => args.scripts.push(lib),
-- 
2.43.0


From 5301683fea02a0c4c04ddf8ae3a93ca0cbb4fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:15 +0000
Subject: [PATCH 15/78] fix: an unresolved weak reference is no error

---
 src/elf.rs | 4 ++++
 src/lib.rs | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index c318abb..b54b348 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -529,6 +529,10 @@ impl<'d> Writer<'d> {
         }
     }
 
+    pub fn is_weak(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_weak())
+    }
+
     pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
         let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
diff --git a/src/lib.rs b/src/lib.rs
index d5c7051..601a4b1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -233,7 +233,9 @@ impl Linker {
             }
         }
         writer.compute_sections();
-        let undefined = writer.undefined_symbols();
+        let mut undefined = writer.undefined_symbols();
+        // weak references needn't be resolved
+        undefined.retain(|u| !writer.is_weak(*u));
         if !undefined.is_empty() {
             let names = undefined
                 .iter()
-- 
2.43.0


From 2e8f0eafdacb3c979157d0ee72668dc5d5b6941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:17 +0000
Subject: [PATCH 16/78] fix: a symbol that a shared library only references
 isn't defined by it

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 601a4b1..8a9936b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
     },
 };
@@ -141,7 +141,8 @@ impl Linker {
                 } else {
                     continue;
                 };
-                for sym in &elf.dynsyms {
+                // what the library itself only references doesn't define anything
+                for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != SHN_UNDEF as usize) {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         entry.1 = true;
-- 
2.43.0


From 131358e95136d30ac3937c18ee5907f678b4ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:19 +0000
Subject: [PATCH 17/78] fix: list needed libraries under their soname

The loader looks for a library by its soname, which need not be the name
of the file that was linked.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8a9936b..eb8c13e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,7 +149,10 @@ impl Linker {
                         writer
                             .add_dyn_symbol(sym.into(), inner_name, path)
                             .map_path_err(path)?;
-                        writer.add_needed(path.file_name().unwrap().to_str().unwrap());
+                        writer.add_needed(
+                            elf.soname
+                                .unwrap_or_else(|| path.file_name().unwrap().to_str().unwrap()),
+                        );
                     }
                 }
             }
-- 
2.43.0


From dfef491fa97a637c67282455637204fd8f3d4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:49 +0000
Subject: [PATCH 18/78] fix: a definition in an archive member takes precedence
 over an import

When a member that is linked for another symbol defines one that was found
in a shared library before, calls went on to be routed to the library.
---
 src/elf.rs              | 7 +++++++
 src/elf/symbol_table.rs | 6 ++++++
 src/symbol.rs           | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index b54b348..c99cf19 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -478,6 +478,13 @@ impl<'d> Writer<'d> {
                 }
             }
         }
+        if added != Added::Ignored && elf_sym.st_shndx != SHN_UNDEF as u16 {
+            // our own definition takes precedence over one that was found in a shared library
+            let imported = as_mut_sym_tab(&self.sym_section).get_mut(r).unwrap().take_dynamic();
+            if let Some(dyn_ref) = imported {
+                as_mut_sym_tab(&self.dyn_sym_section).remove(dyn_ref);
+            }
+        }
         // only the definition that was taken gets the address of its chunk
         if let Some(section_ref) = sec_ref {
             if added != Added::Ignored && elf_sym.st_shndx != SHN_ABS as u16 {
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 68b9866..987114b 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -182,6 +182,12 @@ impl<'p> SymbolTable<'p> {
         }
     }
 
+    pub fn remove(&mut self, s: SymbolRef) {
+        if let SymbolRef::Named(n) = s {
+            self.symbols.remove(&n);
+        }
+    }
+
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> = self.locals.iter().chain(self.symbols.values()).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
diff --git a/src/symbol.rs b/src/symbol.rs
index e7bed27..03057b5 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -127,6 +127,10 @@ impl<'r> Symbol<'r> {
         self.dynamic = Some(dynamic);
     }
 
+    pub fn take_dynamic(&mut self) -> Option<SymbolRef> {
+        self.dynamic.take()
+    }
+
     pub const fn relocation_offset(&self) -> Option<usize> {
         self.relocation_offset
     }
-- 
2.43.0


From 7bf8222b2e6e4f86c54b82e9b68b9e9b280139d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:52 +0000
Subject: [PATCH 19/78] fix: list the needed libraries that the options ask for

A library that is not as-needed was listed only if it supplied a symbol,
the order was that in which symbols were found, and a library named like a
symbol was left out.
---
 src/elf.rs | 11 +++++++++--
 src/lib.rs | 19 +++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c99cf19..ce70653 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -588,6 +588,11 @@ impl<'d> Writer<'d> {
         self.got_plt_section.read().sh_addr
     }
 
+    /// Whether a symbol is imported from the shared library.
+    pub fn imports_from(&self, lib: &Path) -> bool {
+        as_sym_tab(&self.dyn_sym_section).named().values().any(|s| s.reference() == lib)
+    }
+
     pub fn add_needed(&mut self, so_name: &str) {
         let entry = self
             .dyn_sym_str_section
@@ -595,8 +600,10 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(so_name.to_string());
-        if entry.new {
-            self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
+        let offset = entry.offset as u64;
+        // the name might also be that of a symbol
+        if !self.dyn_entries.iter().any(|(_, o)| *o == offset) {
+            self.dyn_entries.push((DynTag::Needed, offset));
         }
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index eb8c13e..fb025fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,10 +149,6 @@ impl Linker {
                         writer
                             .add_dyn_symbol(sym.into(), inner_name, path)
                             .map_path_err(path)?;
-                        writer.add_needed(
-                            elf.soname
-                                .unwrap_or_else(|| path.file_name().unwrap().to_str().unwrap()),
-                        );
                     }
                 }
             }
@@ -200,6 +196,20 @@ impl Linker {
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
 
+    fn add_needed_libs<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
+        for (lib, as_needed) in &self.options.shared_libs {
+            let path = lib.as_path();
+            if !as_needed || writer.imports_from(path) {
+                let data = read(path).map_path_err(path)?;
+                let elf = Elf::parse(&data).map_path_err(path)?;
+                writer.add_needed(
+                    elf.soname.unwrap_or_else(|| path.file_name().unwrap().to_str().unwrap()),
+                );
+            }
+        }
+        Ok(())
+    }
+
     pub fn link(&self) -> Result<(), Error<'_>> {
         let mut writer =
             elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;
@@ -236,6 +246,7 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        self.add_needed_libs(&mut writer)?;
         writer.compute_sections();
         let mut undefined = writer.undefined_symbols();
         // weak references needn't be resolved
-- 
2.43.0


From 2635b10bbce1d3493de39ed9f6cbb198cf5dce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:08 +0000
Subject: [PATCH 20/78] fix: link exactly the archive members that are needed,
 once

Weak references made members be linked, a symbol that another member had
defined in the meantime did so again, and of members with the same name or
symbol the last one was taken.
---
 src/lib.rs | 61 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb025fe..061c58d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,6 +14,7 @@ use goblin::{
         section_header::{
             SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
+        sym::STB_LOCAL,
     },
 };
 use std::{
@@ -91,6 +92,15 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         Ok(())
     }
 
+    /// Whether the object has a definition of a symbol for other objects.
+    pub fn defines(&self, name: &str) -> bool {
+        self.elf.syms.iter().any(|s| {
+            s.st_bind() != STB_LOCAL
+                && s.st_shndx != SHN_UNDEF as usize
+                && self.elf.strtab.get_at(s.st_name) == Some(name)
+        })
+    }
+
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
@@ -162,38 +172,45 @@ impl Linker {
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
+        let mut undefines = symbols.to_vec();
         for ar in &self.archives {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = Vec::new();
-            for entry in &mut undefines {
-                let name = if let Some(name) = writer.symbol_name(entry.0) {
-                    name
-                } else {
-                    continue;
-                };
-                if let Some(member) = ar.member_of_symbol(&*name) {
-                    entry.1 = true;
-                    if !members.contains(&member) {
-                        members.push(member);
-                    }
-                }
+            let indexed = |s: &elf::SymbolRef| match writer.symbol_name(*s) {
+                Some(name) => ar.member_of_symbol(&*name).is_some(),
+                None => false,
+            };
+            if !undefines.iter().any(indexed) {
+                continue;
             }
-            for member in members {
-                let object = ar.get(member).unwrap();
+            // the index doesn't tell members of the same name apart, nor does it
+            // know the first of several that define a symbol
+            for object in (0..ar.len()).filter_map(|i| ar.get_at(i)) {
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
-                let mut elf = input.to_elf_object()?.unwrap();
-                elf.process_sections(writer)?;
-                elf.process_symbols(writer)?;
-                elf.process_relocations(writer)?;
+                let mut elf = match input.to_elf_object() {
+                    Ok(Some(elf)) => elf,
+                    _ => continue,
+                };
+                // weak references don't need a definition
+                let needed = undefines
+                    .iter()
+                    .filter(|s| !writer.is_weak(**s))
+                    .filter_map(|s| writer.symbol_name(*s))
+                    .any(|name| elf.defines(&name));
+                if needed {
+                    elf.process_sections(writer)?;
+                    elf.process_symbols(writer)?;
+                    elf.process_relocations(writer)?;
+                    // the member might have defined more than one of them
+                    let undefined = writer.undefined_symbols();
+                    undefines.retain(|s| undefined.contains(s));
+                }
             }
-            undefines.retain(|(_, found)| !*found);
         }
-        Ok(undefines.into_iter().map(|(k, _)| k).collect())
+        Ok(undefines)
     }
 
     fn add_needed_libs<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
-- 
2.43.0


From 350439da6a620baa3029448cb14e683afd0b6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:51 +0000
Subject: [PATCH 21/78] fix: relaxed calls and jumps through the GOT reach
 their target

The rewritten instruction has its field one byte before the original one,
so it went one byte short.
---
 src/elf/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 3cb6d6a..68ce2ee 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -158,7 +158,8 @@ fn apply_relocation(
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = (s + a - p).try_into().unwrap();
+            // the field moves one byte to the front
+            let value: i32 = (s + a - p + 1).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
-- 
2.43.0


From 7b2829b8e9139775c0e42000a4e074d2f0619473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:53 +0000
Subject: [PATCH 22/78] fix: refuse exactly the 32-bit relocations that don't
 fit

R_X86_64_32S was truncated silently, and R_X86_64_32 refused values that
fit when zero-extended.
---
 src/elf/chunk.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 68ce2ee..34a0423 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -139,11 +139,11 @@ fn apply_relocation(
         R_X86_64_NONE => {}
         R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            // zero-extended
+            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
         }
         R_X86_64_32S => {
-            // TODO warn about truncation
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()
+            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap()
         }
         R_X86_64_PC32 => (&mut data[offset..])
             .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-- 
2.43.0


From 0e031820f84c7ac1dd0235a68e3965c3e3fef5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:55 +0000
Subject: [PATCH 23/78] fix: accept relocations against negative absolute
 symbols

---
 src/elf/chunk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 34a0423..845d564 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -125,9 +125,10 @@ fn apply_relocation(
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i64 = match symbol.dynamic() {
         Some(dyn_sym) if symbol.is_undefined() => {
-            dyn_table.get(dyn_sym).unwrap().st_value.try_into().unwrap()
+            dyn_table.get(dyn_sym).unwrap().st_value as i64
         }
-        _ => symbol.st_value.try_into().unwrap(),
+        // absolute symbols might be negative
+        _ => symbol.st_value as i64,
     };
     let a = rel.r_addend;
     let p: i64 = (chunk_address + rel.r_offset).try_into().unwrap();
-- 
2.43.0


From 5dcfaa1307782a4661aec8bbb97cf29727cbaac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:00 +0000
Subject: [PATCH 24/78] fix: R_X86_64_GOT32 is relative to the GOT and its slot
 is filled

The slots of symbols that aren't imported stayed zero, and the field was
computed relative to the place.
---
 src/elf.rs              | 16 +++++++++++++++-
 src/elf/chunk.rs        |  8 +++++++-
 src/elf/symbol_table.rs |  5 +++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ce70653..2361639 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -934,6 +934,7 @@ impl<'d> Writer<'d> {
 
     fn handle_relocations(&mut self) {
         let got_address = self.got_address();
+        let got_plt_address = self.got_plt_address();
         let plt_address = self.plt_address();
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
 
@@ -946,11 +947,24 @@ impl<'d> Writer<'d> {
         }
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        // the loader fills only the slots of imported symbols
+        for symbol in symbols.iter().filter(|s| s.dynamic().is_none()) {
+            if let Some(offset) = symbol.got_offset() {
+                self.got_section.write().chunk_mut(0)[offset..offset + size_of::<u64>()]
+                    .copy_from_slice(&symbol.st_value.to_le_bytes());
+            }
+        }
         for section in
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
             for chunk in section.write().chunks_mut() {
-                chunk.apply_relocations(got_address, plt_address, &symbols, &dyn_symbols);
+                chunk.apply_relocations(
+                    got_address,
+                    got_plt_address,
+                    plt_address,
+                    &symbols,
+                    &dyn_symbols,
+                );
             }
         }
     }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 845d564..2d2ee0d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -65,6 +65,7 @@ impl Chunk {
     pub fn apply_relocations(
         &mut self,
         got_address: u64,
+        got_plt_address: u64,
         plt_address: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
@@ -77,6 +78,7 @@ impl Chunk {
                 table.get(*symbol_ref).unwrap(),
                 dyn_table,
                 got_address,
+                got_plt_address,
                 plt_address,
             );
         }
@@ -118,6 +120,7 @@ fn apply_relocation(
     symbol: &crate::elf::Symbol<'_>,
     dyn_table: &SymbolTable,
     got_address: u64,
+    got_plt_address: u64,
     plt_address: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
@@ -150,9 +153,12 @@ fn apply_relocation(
             .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
             .unwrap(),
         R_X86_64_GOT32 => {
+            // relative to `_GLOBAL_OFFSET_TABLE_`
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             (&mut data[offset..])
-                .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
+                .write_i32::<LittleEndian>(
+                    (g + got - got_plt_address as i64 + a).try_into().unwrap(),
+                )
                 .unwrap()
         }
         R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 987114b..19d270c 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -232,6 +232,11 @@ impl<'p> SymbolTable<'p> {
         &mut self.symbols
     }
 
+    /// All symbols, including those that aren't part of the table in the file.
+    pub fn iter(&self) -> impl Iterator<Item = &Symbol<'p>> {
+        self.symbols.values().chain(&self.locals).chain(self.section_syms.values().flatten())
+    }
+
     /// Updates all objects symbols to point to `.copyrel`.
     /// Note: This assumes that `st_value`s already have the correct offsets
     /// into `.copyrel`.
-- 
2.43.0


From be15aa45accdcc205d51e5725c4e873106e7b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:17 +0000
Subject: [PATCH 25/78] fix: instructions that can't be relaxed use the GOT

They made the linker panic.
---
 src/elf/chunk.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 2d2ee0d..daaf66d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -180,7 +180,12 @@ fn apply_relocation(
                     buf[1..5].as_mut().write_i32::<LittleEndian>(value).unwrap();
                     buf[5] = 0x90;
                 }
-                ref x => unreachable!("{:?}", x),
+                // other instructions go through the GOT
+                _ => {
+                    let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
+                    let value: i32 = (g + got + a - p).try_into().unwrap();
+                    buf[2..].as_mut().write_i32::<LittleEndian>(value).unwrap();
+                }
             }
         }
         R_X86_64_GOTPCRELX => {
@@ -208,10 +213,16 @@ fn apply_relocation(
                     [0x4c, 0x8b, 0x2d] => [0x4c, 0x8d, 0x2d], // mov 0x0(%rip),%r13 -> lea 0x0(%rip),%r13
                     [0x4c, 0x8b, 0x35] => [0x4c, 0x8d, 0x35], // mov 0x0(%rip),%r14 -> lea 0x0(%rip),%r14
                     [0x4c, 0x8b, 0x3d] => [0x4c, 0x8d, 0x3d], // mov 0x0(%rip),%r15 -> lea 0x0(%rip),%r15
-                    ref x => unreachable!("{:?}", &x),
+                    // other instructions go through the GOT
+                    ref x => [x[0], x[1], x[2]],
+                };
+                let target = if instr == buf[..3] {
+                    symbol.got_offset().unwrap() as i64 + got
+                } else {
+                    s
                 };
                 buf[..3].as_mut().write_all(&instr).unwrap();
-                let value: i32 = (s + a - p).try_into().unwrap();
+                let value: i32 = (target + a - p).try_into().unwrap();
                 buf[3..].as_mut().write_i32::<LittleEndian>(value).unwrap();
             } else {
                 let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
-- 
2.43.0


From 025aa4acabce6898a6cb18b81724389cefb458c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:12 +0000
Subject: [PATCH 26/78] fix: the address of an imported function is that of its
 PLT entry

Relocations other than calls and GOT accesses against an imported function
silently got address zero.
---
 src/elf.rs    | 26 +++++++++++++++++++++++++-
 src/symbol.rs | 11 +++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 2361639..1ee8a4d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -744,6 +744,15 @@ impl<'d> Writer<'d> {
             }
         }
 
+        // handle dynamic functions whose address is taken
+        let plt_address = self.plt_address();
+        for sym in as_sym_tab(&self.sym_section).named().values() {
+            if let (Some(d), true) = (sym.dynamic(), sym.has_canonical_plt()) {
+                as_mut_sym_tab(&self.dyn_sym_section).get_mut(d).unwrap().st_value =
+                    plt_entry_addr(plt_address, sym.plt_index().unwrap()) as u64;
+            }
+        }
+
         // handle dynamic object symbols
         let copy_rel = self.copy_rel_section.read();
         as_mut_sym_tab(&self.dyn_sym_section)
@@ -799,6 +808,9 @@ impl<'d> Writer<'d> {
         for section in &mut self.sections {
             for chunk in section.write().chunks_mut() {
                 let mut symbols = as_mut_sym_tab(&self.sym_section);
+                let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+                let is_function =
+                    |d| dyn_symbols.get(d).map_or(false, |s| !s.is_object() && !s.is_tls());
                 for (reloc, sym_ref) in chunk.relocations_mut() {
                     let r_type = reloc.r_info as u32;
                     match r_type as u32 {
@@ -818,8 +830,20 @@ impl<'d> Writer<'d> {
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
                             }
                         }
-                        R_X86_64_PLT32 => {
+                        R_X86_64_PLT32
+                        | R_X86_64_64
+                        | R_X86_64_32
+                        | R_X86_64_32S
+                        | R_X86_64_PC32 => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
+                            // the address of an imported function is that of its PLT entry
+                            let address_taken = r_type != R_X86_64_PLT32;
+                            if address_taken {
+                                if !sym.dynamic().map_or(false, is_function) {
+                                    continue;
+                                }
+                                sym.set_canonical_plt();
+                            }
                             if sym.dynamic().is_some() {
                                 let len = self.got_plt.len() + 3;
                                 let offset =
diff --git a/src/symbol.rs b/src/symbol.rs
index 03057b5..19f9bcc 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -21,6 +21,8 @@ pub struct Symbol<'r> {
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
+    // whether our PLT entry is the symbol's address for the whole program
+    canonical_plt: bool,
 }
 
 impl<'r> Symbol<'r> {
@@ -35,6 +37,7 @@ impl<'r> Symbol<'r> {
             in_got_plt: None,
             relocation_offset: None,
             dynamic: None,
+            canonical_plt: false,
         }
     }
 
@@ -131,6 +134,14 @@ impl<'r> Symbol<'r> {
         self.dynamic.take()
     }
 
+    pub const fn has_canonical_plt(&self) -> bool {
+        self.canonical_plt
+    }
+
+    pub fn set_canonical_plt(&mut self) {
+        self.canonical_plt = true;
+    }
+
     pub const fn relocation_offset(&self) -> Option<usize> {
         self.relocation_offset
     }
-- 
2.43.0


From 018bf33759abedd729448d66fb454883ad92c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:12 +0000
Subject: [PATCH 27/78] fix: a search directory that doesn't exist is no error

-LDIR made the linker panic.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bb1642f..63e2a6d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -179,7 +179,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.push(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
-- 
2.43.0


From e8515ac2ca19dc090b7b7b0358322293191882de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:13 +0000
Subject: [PATCH 28/78] fix: look for a library only under its library name,
 first directory first

A file that happened to be named like the library in the working or a
search directory was taken, and the last directory with the library won.
---
 src/main.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 63e2a6d..9363126 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -34,7 +34,8 @@ struct AppArgs {
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
-    inputs: Vec<(PathBuf, bool)>,
+    // path or name of a library, as needed, is a library
+    inputs: Vec<(PathBuf, bool, bool)>,
     help: bool,
     as_needed: bool,
 }
@@ -154,7 +155,7 @@ fn handle_linker_args(
             "-l" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-l'.".to_string())?;
-                app.inputs.push((path.into(), app.as_needed));
+                app.inputs.push((path.into(), app.as_needed, true));
                 continue;
             }
             "-z" => {
@@ -181,20 +182,20 @@ fn handle_linker_args(
         if let Some(arg) = arg.strip_prefix("-L") {
             app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
-            app.inputs.push((lib.into(), app.as_needed));
+            app.inputs.push((lib.into(), app.as_needed, true));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
             app.opts.hash_style = HashStyle::from_str(arg)?;
         } else {
-            app.inputs.push((arg.into(), app.as_needed));
+            app.inputs.push((arg.into(), app.as_needed, false));
         }
     }
     Ok(())
 }
 
 fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (lib, as_needed) in args.inputs.drain(..) {
+    for (lib, as_needed, is_lib) in args.inputs.drain(..) {
         let mut found = None;
-        if lib.exists() && lib.is_file() {
+        if !is_lib && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
         }
         for kind in ["so", "a"] {
@@ -202,14 +203,14 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 break;
             }
             for dir in &args.search_paths {
-                let p = dir.join(&lib);
-                if p.exists() && p.is_file() {
-                    found = Some(p);
-                    break;
-                }
-                let input = dir.join(format!("lib{}.{}", lib.display(), kind));
+                let input = if is_lib {
+                    dir.join(format!("lib{}.{}", lib.display(), kind))
+                } else {
+                    dir.join(&lib)
+                };
                 if input.exists() && input.is_file() {
                     found = Some(input);
+                    break;
                 }
             }
         }
-- 
2.43.0


From 40c4e9d390c4c81ec160871a86a05212a5952446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:49 +0000
Subject: [PATCH 29/78] fix: AS_NEEDED in a linker script ends with its block

It also applied to the inputs after it.
---
 src/linker_script.rs | 14 ++++++++++----
 src/main.rs          | 10 +++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index afeb65b..2acab38 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -22,7 +22,7 @@ where
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
-pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<Vec<String>>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
@@ -32,7 +32,7 @@ where
         sep_end_by(parse_as_needed_command().or(parse_arg().map(|v| vec![v])), skip_many(space())),
     );
     (string("GROUP"), skip_many(space()), between(char('('), char(')'), args))
-        .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1.into_iter().flatten().collect())
+        .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1)
 }
 
 /// Parses an AS_NEEDED block like: AS_NEEDED ( foo.so )
@@ -52,7 +52,7 @@ where
 }
 
 /// Parses a OUTPUT_FORMAT command like: OUTPUT_FORMAT(elf64-x86-64)
-pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<Vec<String>>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
@@ -63,7 +63,13 @@ where
         .map(|(_, _, _): (_, _, (_, String, _))| vec![])
 }
 
-pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
+#[cfg(test)]
+fn parse(input: &str) -> Result<Vec<String>, StringStreamError> {
+    parse_blocks(input).map(|blocks| blocks.into_iter().flatten().collect())
+}
+
+/// Parses a whole script. The options in a block of arguments apply to that block only.
+pub fn parse_blocks(mut input: &str) -> Result<Vec<Vec<String>>, StringStreamError> {
     let mut new_args = vec![];
     let skip_ws_and_comments =
         skip_many(skip_many1(space()).or(parse_comment()).or(char('\n').map(|_| ())));
diff --git a/src/main.rs b/src/main.rs
index 9363126..a19c429 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -48,11 +48,15 @@ fn main() -> Result<(), String> {
         return Ok(());
     }
     while let Some(script) = args.scripts.pop() {
-        let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
-        if !new_args.is_empty() {
+        let blocks =
+            linker_script::parse_blocks(&std::fs::read_to_string(script).unwrap()).unwrap();
+        let as_needed = args.as_needed;
+        for new_args in blocks {
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            let _ = search_for_inputs(&mut args);
+            // AS_NEEDED ends with its block
+            args.as_needed = as_needed;
         }
+        let _ = search_for_inputs(&mut args);
     }
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
-- 
2.43.0


From 764b45842c1179166edffa540d798e76bc192c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:50 +0000
Subject: [PATCH 30/78] fix: refuse a linker script with an unknown command

The parser tried the same input again forever.
---
 src/linker_script.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 2acab38..15e81ed 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -81,6 +81,9 @@ pub fn parse_blocks(mut input: &str) -> Result<Vec<Vec<String>>, StringStreamErr
         let ((_, args), leftover) = line.parse(input)?;
         if let Some(args) = args {
             new_args.extend(args);
+        } else if !leftover.is_empty() {
+            // neither a command nor the end of the script
+            return Err(StringStreamError::UnexpectedParse);
         }
         if !leftover.is_empty() {
             input = leftover;
-- 
2.43.0


From 2795a19f5d565766a48a98ffaaca26ea44409fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:36 +0000
Subject: [PATCH 31/78] fix: comments in a linker script may contain asterisks

---
 src/linker_script.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 15e81ed..44aae25 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -2,7 +2,7 @@ use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
 use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
-use combine::{between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -18,7 +18,7 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    between(string("/*"), string("*/"), skip_until(string("*/")))
+    between(attempt(string("/*")), string("*/"), skip_until(attempt(string("*/"))))
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
-- 
2.43.0


From 346bbff58230a17f0cc414dfce223f1f51c1b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:56 +0000
Subject: [PATCH 32/78] fix: comments may stand between any words of a linker
 script

---
 src/linker_script.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 44aae25..ee7bb64 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -21,6 +21,15 @@ where
     between(attempt(string("/*")), string("*/"), skip_until(attempt(string("*/"))))
 }
 
+/// Skips what separates the words of a script.
+fn skip_blanks<Input>() -> impl Parser<Input, Output = ()>
+where
+    Input: Stream<Token = char>,
+    Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
+{
+    skip_many(skip_many1(space()).or(parse_comment()))
+}
+
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
 pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<Vec<String>>>
 where
@@ -28,10 +37,10 @@ where
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
     let args = (
-        skip_many(space()),
-        sep_end_by(parse_as_needed_command().or(parse_arg().map(|v| vec![v])), skip_many(space())),
+        skip_blanks(),
+        sep_end_by(parse_as_needed_command().or(parse_arg().map(|v| vec![v])), skip_blanks()),
     );
-    (string("GROUP"), skip_many(space()), between(char('('), char(')'), args))
+    (string("GROUP"), skip_blanks(), between(char('('), char(')'), args))
         .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1)
 }
 
@@ -41,8 +50,8 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    let args = (skip_many(space()), sep_end_by(parse_arg(), skip_many(space())));
-    (string("AS_NEEDED"), skip_many(space()), between(char('('), char(')'), args)).map(
+    let args = (skip_blanks(), sep_end_by(parse_arg(), skip_blanks()));
+    (string("AS_NEEDED"), skip_blanks(), between(char('('), char(')'), args)).map(
         |(_, _, s): (_, _, (_, Vec<String>))| {
             let mut v: Vec<String> = vec!["--as-needed".into()];
             v.extend(s.1);
@@ -57,8 +66,8 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    let args = (skip_many(space()), parse_arg(), skip_many(space()));
-    (string("OUTPUT_FORMAT"), skip_many(space()), between(char('('), char(')'), args))
+    let args = (skip_blanks(), parse_arg(), skip_blanks());
+    (string("OUTPUT_FORMAT"), skip_blanks(), between(char('('), char(')'), args))
         // TODO: handle output format argument
         .map(|(_, _, _): (_, _, (_, String, _))| vec![])
 }
@@ -71,10 +80,8 @@ fn parse(input: &str) -> Result<Vec<String>, StringStreamError> {
 /// Parses a whole script. The options in a block of arguments apply to that block only.
 pub fn parse_blocks(mut input: &str) -> Result<Vec<Vec<String>>, StringStreamError> {
     let mut new_args = vec![];
-    let skip_ws_and_comments =
-        skip_many(skip_many1(space()).or(parse_comment()).or(char('\n').map(|_| ())));
     let mut line = (
-        skip_ws_and_comments,
+        skip_blanks(),
         optional(choice((parse_group_command(), parse_output_format_command()))),
     );
     loop {
-- 
2.43.0


From 9408476da599d9df99095206b7cb567fb2e0d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:59 +0000
Subject: [PATCH 33/78] fix: names in a linker script may start like AS_NEEDED

---
 src/linker_script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index ee7bb64..fc30b24 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -51,7 +51,7 @@ where
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
     let args = (skip_blanks(), sep_end_by(parse_arg(), skip_blanks()));
-    (string("AS_NEEDED"), skip_blanks(), between(char('('), char(')'), args)).map(
+    (attempt(string("AS_NEEDED")), skip_blanks(), between(char('('), char(')'), args)).map(
         |(_, _, s): (_, _, (_, Vec<String>))| {
             let mut v: Vec<String> = vec!["--as-needed".into()];
             v.extend(s.1);
-- 
2.43.0


From d4ab989cd4d54b2eed45449c559196eb442e6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:47 +0000
Subject: [PATCH 34/78] fix: the inputs of a linker script take its place, and
 are reported when missing

---
 src/main.rs | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a19c429..040d792 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -33,6 +33,7 @@ struct AppArgs {
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
+    // the scripts that are being read
     scripts: Vec<PathBuf>,
     // path or name of a library, as needed, is a library
     inputs: Vec<(PathBuf, bool, bool)>,
@@ -42,22 +43,11 @@ struct AppArgs {
 
 fn main() -> Result<(), String> {
     env_logger::init();
-    let mut args = parse_args()?;
+    let args = parse_args()?;
     if args.help {
         println!("{}", HELP);
         return Ok(());
     }
-    while let Some(script) = args.scripts.pop() {
-        let blocks =
-            linker_script::parse_blocks(&std::fs::read_to_string(script).unwrap()).unwrap();
-        let as_needed = args.as_needed;
-        for new_args in blocks {
-            handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            // AS_NEEDED ends with its block
-            args.as_needed = as_needed;
-        }
-        let _ = search_for_inputs(&mut args);
-    }
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
     if let Err(e) = linker.link() {
@@ -100,7 +90,7 @@ fn parse_args() -> Result<AppArgs, String> {
     let _ = args.next();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app).map_err(|e| format!("Couldn't find library {}", e.display()))?;
+    search_for_inputs(&mut app)?;
     Ok(app)
 }
 
@@ -196,8 +186,28 @@ fn handle_linker_args(
     Ok(())
 }
 
-fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (lib, as_needed, is_lib) in args.inputs.drain(..) {
+/// Adds the inputs that a script lists in place of it.
+fn add_script(script: PathBuf, as_needed: bool, args: &mut AppArgs) -> Result<(), String> {
+    let err = |e: &dyn std::fmt::Display| format!("Linker script {}: {}", script.display(), e);
+    let path = script.canonicalize().map_err(|e| err(&e))?;
+    if args.scripts.contains(&path) {
+        return Err(err(&"includes itself."));
+    }
+    let text = std::fs::read_to_string(&path).map_err(|e| err(&e))?;
+    let blocks = linker_script::parse_blocks(&text).map_err(|e| err(&e))?;
+    args.scripts.push(path);
+    for new_args in blocks {
+        // AS_NEEDED ends with its block
+        args.as_needed = as_needed;
+        handle_linker_args(&mut new_args.into_iter().peekable(), args)?;
+    }
+    search_for_inputs(args)?;
+    args.scripts.pop();
+    Ok(())
+}
+
+fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
+    for (lib, as_needed, is_lib) in std::mem::take(&mut args.inputs) {
         let mut found = None;
         if !is_lib && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
@@ -219,7 +229,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
             }
         }
         if let Some(lib) = found.take() {
-            let file_type = file_type(&lib).unwrap();
+            let file_type = file_type(&lib).map_err(|e| format!("{}: {}", lib.display(), e))?;
             match file_type {
                 FileType::ElfObject => {
                     args.objects.push(lib.canonicalize().unwrap());
@@ -231,10 +241,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-                FileType::Text => args.scripts.push(lib),
+                FileType::Text => add_script(lib, as_needed, args)?,
             }
         } else {
-            return Err(lib);
+            return Err(format!("Couldn't find library {}", lib.display()));
         }
     }
     Ok(())
-- 
2.43.0


From b3b08c7484711df515205549ba1fa27c6d52c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:02 +0000
Subject: [PATCH 35/78] fix: sort the dynamic symbols by the buckets of the GNU
 hash table

---
 src/elf/symbol_table.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 19d270c..f98c396 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -188,23 +188,35 @@ impl<'p> SymbolTable<'p> {
         }
     }
 
+    /// The number of buckets by which the symbols have to be sorted.
+    fn gnu_nbuckets(&self) -> u32 {
+        if self.is_dynamic {
+            gnu_nbuckets(self.symbols.len() + self.locals.len())
+        } else {
+            1
+        }
+    }
+
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
+        let nbuckets = self.gnu_nbuckets();
         let mut syms: Vec<&Symbol<'p>> = self.locals.iter().chain(self.symbols.values()).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
+        let nbuckets = self.gnu_nbuckets();
         let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
     /// Useful for those cases where we need quick access to a symbol with a given
     /// st_name, and we want to know its index in the final symbol table.
     pub fn sorted_with_indexes(&mut self) -> HashMap<u32, (usize, &mut Symbol<'p>)> {
+        let nbuckets = self.gnu_nbuckets();
         let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms.into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
     }
 
@@ -310,14 +322,19 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     }
 }
 
-// local before global, then compare by gnu hash
-fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
+fn gnu_nbuckets(num_symbols: usize) -> u32 {
+    num_symbols as u32 / 8 + 1
+}
+
+// local before global, then compare by gnu hash bucket, then by gnu hash
+fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
     let b1 = if s1.is_local() { 0 } else { 1 };
     let b2 = if s2.is_local() { 0 } else { 1 };
     match b1.cmp(&b2) {
-        Ordering::Equal => {
-            s1.gnu_hash().cmp(&s2.gnu_hash()).then(s1.st_name.cmp(&s2.st_name))
-        }
+        Ordering::Equal => (s1.gnu_hash() % nbuckets)
+            .cmp(&(s2.gnu_hash() % nbuckets))
+            .then(s1.gnu_hash().cmp(&s2.gnu_hash()))
+            .then(s1.st_name.cmp(&s2.st_name)),
         c => c,
     }
 }
@@ -424,7 +441,7 @@ impl GnuHashTable {
         let bits = (symbols.len() as u32 - 1) * 12;
         let bloom_size = (bits / elfclass_bits).next_power_of_two();
         let bloom_shift = 26;
-        let nbuckets: u32 = symbols.len() as u32 / 8 + 1;
+        let nbuckets = gnu_nbuckets(symbols.len());
         // we always skip the first null symbol. For now, since we don't have
         // any locals in `.dynsym`, we can set this to 1, since we skip 1 symbol only.
         let symbol_offset = 1;
-- 
2.43.0


From 39d3df57175d57b2af24bc159bef46f2f181e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:45 +0000
Subject: [PATCH 36/78] fix: the symbols around init and fini arrays enclose
 all of the array, unless the inputs define them

---
 src/elf.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 1ee8a4d..f9a5bed 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -712,33 +712,39 @@ impl<'d> Writer<'d> {
                 s.st_value = got_plt_addr;
             };
         }
+        // the inputs might define the symbols themselves
+        let undefined = |name: &'static str| {
+            symbol_names.get(name).filter(|e| {
+                as_sym_tab(&self.sym_section)
+                    .get(SymbolRef::Named(e.offset as u32))
+                    .map_or(false, |s| s.is_undefined())
+            })
+        };
         let skip = [self.sym_str_section.read().sh_name, self.shstr_section.read().sh_name];
         for section in self.sections.iter().filter(|s| !skip.contains(&s.read().sh_name)) {
             let mut section = section.write();
             if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__init_array_start") {
+                if let Some(s) = undefined("__init_array_start") {
                     section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
                 }
-                if let Some(s) = symbol_names.get("__init_array_end") {
+                if let Some(s) = undefined("__init_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
                     if let Some(symbol) = symbols.get_mut(sym_ref) {
                         symbol.st_value = section.size_on_disk();
-                        let chunk_index = section.last_chunk_index();
-                        section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                        section.chunk_mut(0).add_symbol(sym_ref);
                     }
                 }
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__fini_array_start") {
+                if let Some(s) = undefined("__fini_array_start") {
                     section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
                 }
-                if let Some(s) = symbol_names.get("__fini_array_end") {
+                if let Some(s) = undefined("__fini_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
                     if let Some(symbol) = symbols.get_mut(sym_ref) {
                         symbol.st_value = section.size_on_disk();
-                        let chunk_index = section.last_chunk_index();
-                        section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                        section.chunk_mut(0).add_symbol(sym_ref);
                     }
                 }
             }
-- 
2.43.0


From 7ca489437f57c10e2c1b31bef216fd404f86fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:13 +0000
Subject: [PATCH 37/78] fix: an init or fini array that doesn't exist is empty

---
 src/elf.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index f9a5bed..d340090 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -750,6 +750,20 @@ impl<'d> Writer<'d> {
             }
         }
 
+        // an array that doesn't exist is empty
+        for (section_name, start, end) in [
+            (".init_array", "__init_array_start", "__init_array_end"),
+            (".fini_array", "__fini_array_start", "__fini_array_end"),
+        ] {
+            if section_names.get(section_name).is_none() {
+                for e in [start, end].iter().filter_map(|name| undefined(name)) {
+                    let mut symbols = as_mut_sym_tab(&self.sym_section);
+                    symbols.get_mut(SymbolRef::Named(e.offset as u32)).unwrap().st_shndx =
+                        SHN_ABS as u16;
+                }
+            }
+        }
+
         // handle dynamic functions whose address is taken
         let plt_address = self.plt_address();
         for sym in as_sym_tab(&self.sym_section).named().values() {
-- 
2.43.0


From f098bf69c3affaf54a2121d5ba07d194e681f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:54 +0000
Subject: [PATCH 38/78] fix: write the output only when it is complete

---
 src/elf.rs | 47 +++++++++++++++++++++++++++++------------------
 src/lib.rs |  3 +--
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index d340090..52b8cc5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -20,7 +20,7 @@ use std::{
     cmp::Ordering,
     collections::HashMap,
     convert::TryInto,
-    fs::File,
+    fs::{remove_file, File, Permissions},
     io::Write,
     mem::{align_of, size_of},
     os::unix::prelude::PermissionsExt,
@@ -140,7 +140,7 @@ pub enum DynTag {
 }
 
 pub struct Writer<'d> {
-    out: File,
+    out: &'d Path,
     eh: Header,
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
@@ -171,7 +171,7 @@ pub struct Writer<'d> {
 
 impl<'d> Writer<'d> {
     pub fn new(options: &'d options::Options) -> std::io::Result<Self> {
-        let out = File::create(options.output.as_path())?;
+        let out = options.output.as_path();
         let eh = Header {
             #[rustfmt::skip]
             e_ident: [
@@ -1052,25 +1052,39 @@ impl<'d> Writer<'d> {
         ph.p_paddr = ph.p_vaddr;
     }
 
-    pub fn write_to_disk(mut self) {
+    /// Writes the complete program to its place, or nothing at all.
+    pub fn write_to_disk(self) -> std::io::Result<()> {
+        let mut data = vec![];
+        self.serialize(&mut data);
+        let mut out = File::create(self.out)?;
+        let mut written = out.write_all(&data);
+        if written.is_ok() {
+            written = out.set_permissions(Permissions::from_mode(0o755));
+        }
+        if written.is_err() && self.out.is_file() {
+            let _ = remove_file(self.out);
+        }
+        written
+    }
+
+    fn serialize(&self, out: &mut Vec<u8>) {
         let mut offset = 0;
         log::trace!("0x{:x}: ---- elf header ----\n{:#?}", offset, self.eh);
-        offset += self.eh.serialize(&mut self.out);
+        offset += self.eh.serialize(out);
         for (i, ph) in self.program_headers.iter().enumerate() {
             log::trace!("0x{:x}: ---- prog header {} ----\n{:#?}", offset, i, ph);
-            offset += ph.serialize(&mut self.out);
+            offset += ph.serialize(out);
         }
         for (i, section) in self.sections.iter().enumerate() {
             let mut section = section.write();
             // add the necessary padding between aligned sections
             if offset < section.sh_offset as usize {
-                self.out
-                    .write_all(
-                        &std::iter::repeat(0)
-                            .take(section.sh_offset as usize - offset)
-                            .collect::<Vec<u8>>(),
-                    )
-                    .unwrap();
+                out.write_all(
+                    &std::iter::repeat(0)
+                        .take(section.sh_offset as usize - offset)
+                        .collect::<Vec<u8>>(),
+                )
+                .unwrap();
                 offset = section.sh_offset as usize;
             }
             log::trace!(
@@ -1085,7 +1099,7 @@ impl<'d> Writer<'d> {
             );
             section.finalize();
             for chunk in section.chunks() {
-                self.out.write_all(chunk).unwrap();
+                out.write_all(chunk).unwrap();
             }
             offset += section.size_on_disk() as usize;
         }
@@ -1097,11 +1111,8 @@ impl<'d> Writer<'d> {
                 i,
                 &*section as &SectionHeader
             );
-            offset += section.serialize(&mut self.out);
+            offset += section.serialize(out);
         }
-        let mut perm = self.out.metadata().unwrap().permissions();
-        perm.set_mode(0o755);
-        self.out.set_permissions(perm).unwrap();
     }
 
     fn count_program_headers(&self) -> usize {
diff --git a/src/lib.rs b/src/lib.rs
index 061c58d..13a8428 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -276,8 +276,7 @@ impl Linker {
             return Err(ErrorType::Other(format_list(&names)))
                 .map_path_err(self.options.output.as_path());
         }
-        writer.write_to_disk();
-        Ok(())
+        writer.write_to_disk().map_path_err(self.options.output.as_path())
     }
 }
 
-- 
2.43.0


From b68290d2386a94f6afeffa778535587524fae62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:09 +0000
Subject: [PATCH 39/78] fix: refuse common symbols instead of giving them a
 wrong address

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 13a8428..7b6383c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::STB_LOCAL,
     },
@@ -83,6 +83,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for symbol in &elf.syms {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
+            if symbol.st_shndx == SHN_COMMON as usize {
+                let e = format!("{} is a common symbol, which isn't supported.", name);
+                return Err(e).map_path_err(path);
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
-- 
2.43.0


From 0fb58bada4136d023a43454b1f18c650ec434207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:50 +0000
Subject: [PATCH 40/78] fix: refuse inputs that aren't x86-64 ELF files of the
 expected type

---
 src/elf.rs           |  9 +++------
 src/elf/chunk.rs     | 11 +++--------
 src/lib.rs           | 38 ++++++++++++++++++++++++--------------
 src/linker_script.rs | 10 +++++-----
 4 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 52b8cc5..8f05cc7 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS,
-        SHT_RELA, SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -850,10 +850,7 @@ impl<'d> Writer<'d> {
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
                             }
                         }
-                        R_X86_64_PLT32
-                        | R_X86_64_64
-                        | R_X86_64_32
-                        | R_X86_64_32S
+                        R_X86_64_PLT32 | R_X86_64_64 | R_X86_64_32 | R_X86_64_32S
                         | R_X86_64_PC32 => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             // the address of an imported function is that of its PLT entry
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index daaf66d..bb6ac47 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -127,9 +127,7 @@ fn apply_relocation(
     // `stderr` is an object, we will know its address at runtime because
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i64 = match symbol.dynamic() {
-        Some(dyn_sym) if symbol.is_undefined() => {
-            dyn_table.get(dyn_sym).unwrap().st_value as i64
-        }
+        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym).unwrap().st_value as i64,
         // absolute symbols might be negative
         _ => symbol.st_value as i64,
     };
@@ -216,11 +214,8 @@ fn apply_relocation(
                     // other instructions go through the GOT
                     ref x => [x[0], x[1], x[2]],
                 };
-                let target = if instr == buf[..3] {
-                    symbol.got_offset().unwrap() as i64 + got
-                } else {
-                    s
-                };
+                let target =
+                    if instr == buf[..3] { symbol.got_offset().unwrap() as i64 + got } else { s };
                 buf[..3].as_mut().write_all(&instr).unwrap();
                 let value: i32 = (target + a - p).try_into().unwrap();
                 buf[3..].as_mut().write_i32::<LittleEndian>(value).unwrap();
diff --git a/src/lib.rs b/src/lib.rs
index 7b6383c..2920625 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,9 +10,11 @@ use goblin::{
     archive::Archive,
     elf::Elf,
     elf64::{
+        header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB,
+            SHT_STRTAB, SHT_SYMTAB,
         },
         sym::STB_LOCAL,
     },
@@ -40,9 +42,9 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 }
 
 impl<'p, 'd> Input<'p, 'd> {
-    fn to_elf_object<'i>(&'i self) -> Result<Option<ElfObject<'i, 'p, '_, 'i>>, Error<'p>> {
-        let elf = Elf::parse(self.data).map_path_err(self.path)?;
-        Ok(if elf.is_object_file() { Some(ElfObject::new(self, elf)) } else { None })
+    fn to_elf_object<'i>(&'i self) -> Result<ElfObject<'i, 'p, '_, 'i>, Error<'p>> {
+        let elf = parse_elf(self.data, ET_REL).map_path_err(self.path)?;
+        Ok(ElfObject::new(self, elf))
     }
 }
 
@@ -148,7 +150,7 @@ impl Linker {
         for (lib, _) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).unwrap();
+            let elf = parse_elf(&data, ET_DYN).map_path_err(path)?;
             for entry in undefines.iter_mut().filter(|(_, v)| !*v) {
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
@@ -160,9 +162,7 @@ impl Linker {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         entry.1 = true;
-                        writer
-                            .add_dyn_symbol(sym.into(), inner_name, path)
-                            .map_path_err(path)?;
+                        writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
                     }
                 }
             }
@@ -195,8 +195,8 @@ impl Linker {
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
                 let mut elf = match input.to_elf_object() {
-                    Ok(Some(elf)) => elf,
-                    _ => continue,
+                    Ok(elf) => elf,
+                    Err(_) => continue,
                 };
                 // weak references don't need a definition
                 let needed = undefines
@@ -247,10 +247,9 @@ impl Linker {
             .collect::<Result<Vec<Input>, Error<'_>>>()?;
         let mut elfs = Vec::with_capacity(inputs.len());
         for input in &inputs {
-            if let Some(mut elf) = input.to_elf_object()? {
-                elf.process_sections(&mut writer)?;
-                elfs.push(elf);
-            };
+            let mut elf = input.to_elf_object()?;
+            elf.process_sections(&mut writer)?;
+            elfs.push(elf);
         }
         for elf in &mut elfs {
             elf.process_symbols(&mut writer)?;
@@ -284,6 +283,17 @@ impl Linker {
     }
 }
 
+/// Parses an ELF file of our target and the given type.
+fn parse_elf(data: &[u8], e_type: u16) -> Result<Elf<'_>, ErrorType> {
+    let elf = Elf::parse(data)?;
+    let header = &elf.header;
+    if !elf.is_64 || !elf.little_endian || header.e_machine != EM_X86_64 || header.e_type != e_type
+    {
+        return Err(ErrorType::Other("Not an x86-64 ELF file of the expected type.".into()));
+    }
+    Ok(elf)
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
diff --git a/src/linker_script.rs b/src/linker_script.rs
index fc30b24..d28cad3 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -2,7 +2,9 @@ use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
 use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
-use combine::{attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{
+    attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser,
+};
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -80,10 +82,8 @@ fn parse(input: &str) -> Result<Vec<String>, StringStreamError> {
 /// Parses a whole script. The options in a block of arguments apply to that block only.
 pub fn parse_blocks(mut input: &str) -> Result<Vec<Vec<String>>, StringStreamError> {
     let mut new_args = vec![];
-    let mut line = (
-        skip_blanks(),
-        optional(choice((parse_group_command(), parse_output_format_command()))),
-    );
+    let mut line =
+        (skip_blanks(), optional(choice((parse_group_command(), parse_output_format_command()))));
     loop {
         let ((_, args), leftover) = line.parse(input)?;
         if let Some(args) = args {
-- 
2.43.0


From dd2b62584c0f6d3587a3768cda7a1ee4d8a9d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:08 +0000
Subject: [PATCH 41/78] fix: refuse relocations and symbols that refer to what
 doesn't exist

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2920625..aafa222 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,7 +13,7 @@ use goblin::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB,
             SHT_STRTAB, SHT_SYMTAB,
         },
         sym::STB_LOCAL,
@@ -89,6 +89,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let e = format!("{} is a common symbol, which isn't supported.", name);
                 return Err(e).map_path_err(path);
             }
+            if symbol.st_shndx >= elf.section_headers.len() && symbol.st_shndx != SHN_ABS as usize {
+                let e = format!("{} is defined in a section that doesn't exist.", name);
+                return Err(e).map_path_err(path);
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
@@ -120,7 +124,8 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let symbol = if let Some(Some(sym)) = self.symbols.get(rel.r_sym) {
                     sym
                 } else {
-                    continue;
+                    let e = format!("Relocation against symbol {}, which doesn't exist.", rel.r_sym);
+                    return Err(e).map_path_err(self.input.path);
                 };
                 let rela = Rela {
                     r_offset: rel.r_offset,
-- 
2.43.0


From 02e690b8e2ea422e20f200913376323a9d4487d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:27 +0000
Subject: [PATCH 42/78] fix: a section is writable or executable if any part of
 it is

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 8f05cc7..3414211 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -416,6 +416,8 @@ impl<'d> Writer<'d> {
             }
             section.sh_size += padding + sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
+            // a part that is written to or executed makes the whole section so
+            section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
             let chunk = section.add_chunk(new_chunk);
             // the file holds either all or nothing of a section
             if section.sh_type == SHT_NOBITS && sh.sh_type != SHT_NOBITS {
-- 
2.43.0


From acde9b1033738f5c0bed1109eb85758f4754b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:22 +0000
Subject: [PATCH 43/78] fix: don't copy section links and groups of the inputs

---
 src/elf.rs | 5 +++--
 src/lib.rs | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3414211..5295ff5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -396,8 +396,9 @@ impl<'d> Writer<'d> {
                 sh_type: sh.sh_type,
                 sh_flags: sh.sh_flags as u64,
                 sh_size: sh.sh_size,
-                sh_link: sh.sh_link,
-                sh_info: sh.sh_info,
+                // these refer to the sections of the input
+                sh_link: 0,
+                sh_info: 0,
                 sh_entsize: sh.sh_entsize,
                 sh_addralign: sh.sh_addralign,
                 // patched later on
diff --git a/src/lib.rs b/src/lib.rs
index aafa222..88e8d15 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,8 +13,8 @@ use goblin::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB,
-            SHT_STRTAB, SHT_SYMTAB,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_REL, SHT_RELA,
+            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::STB_LOCAL,
     },
@@ -26,7 +26,7 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB, SHT_GROUP];
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -124,7 +124,8 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let symbol = if let Some(Some(sym)) = self.symbols.get(rel.r_sym) {
                     sym
                 } else {
-                    let e = format!("Relocation against symbol {}, which doesn't exist.", rel.r_sym);
+                    let e =
+                        format!("Relocation against symbol {}, which doesn't exist.", rel.r_sym);
                     return Err(e).map_path_err(self.input.path);
                 };
                 let rela = Rela {
-- 
2.43.0


From 70a52493286da841b5ee12ac1c5f4efba2ac9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:26 +0000
Subject: [PATCH 44/78] fix: lay out thread-local storage and apply its
 relocations

---
 src/elf.rs              | 98 ++++++++++++++++++++++++++++++++++++-----
 src/elf/chunk.rs        |  9 ++--
 src/elf/symbol_table.rs |  7 +++
 src/symbol.rs           | 11 +++++
 4 files changed, 110 insertions(+), 15 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 5295ff5..21eb64d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -3,12 +3,14 @@ use crate::{
 };
 use goblin::elf64::{
     header::{Header, ELFCLASS64, ELFDATA2LSB, ELFMAG, EM_X86_64, ET_EXEC, EV_CURRENT},
-    program_header::{ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR},
+    program_header::{
+        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR, PT_TLS,
+    },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
-        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_UNDEF,
+        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
+        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -807,7 +809,8 @@ impl<'d> Writer<'d> {
             let mut data = Vec::with_capacity(section.sh_size as usize);
             for rel in rels {
                 match r_type(rel.r_info) {
-                    R_X86_64_GLOB_DAT => rel.r_offset += got_addr,
+                    R_X86_64_GLOB_DAT | R_X86_64_TPOFF64 | R_X86_64_DTPMOD64
+                    | R_X86_64_DTPOFF64 => rel.r_offset += got_addr,
                     R_X86_64_JUMP_SLOT => rel.r_offset += got_plt_addr,
                     R_X86_64_COPY => rel.r_offset += copy_rel_addr,
                     _ => {}
@@ -843,14 +846,19 @@ impl<'d> Writer<'d> {
                         | R_X86_64_GOTPC32
                         | R_X86_64_GOTPCRELX
                         | R_X86_64_REX_GOTPCRELX
-                        | R_X86_64_TLSGD
                         | R_X86_64_GOTTPOFF => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             if sym.got_offset().is_none() {
                                 sym.set_got_offset(self.got_len * size_of::<u64>());
+                                self.got_len += 1;
+                            }
+                        }
+                        R_X86_64_TLSGD => {
+                            let sym = symbols.get_mut(*sym_ref).unwrap();
+                            if sym.tls_gd_offset().is_none() {
+                                sym.set_tls_gd_offset(self.got_len * size_of::<u64>());
                                 // For TLSGD relocations we need to allocate two slots
-                                self.got_len +=
-                                    if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
+                                self.got_len += 2;
                             }
                         }
                         R_X86_64_PLT32 | R_X86_64_64 | R_X86_64_32 | R_X86_64_32S
@@ -933,7 +941,13 @@ impl<'d> Writer<'d> {
             for (sym, dyn_sym) in imports {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
-                    self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
+                    let r_type = if sym.is_tls() { R_X86_64_TPOFF64 } else { R_X86_64_GLOB_DAT };
+                    self.dyn_rels.push(rela(offset, index, r_type));
+                }
+                if let Some(offset) = sym.tls_gd_offset() {
+                    self.dyn_rels.push(rela(offset, index, R_X86_64_DTPMOD64));
+                    let offset = offset + size_of::<u64>();
+                    self.dyn_rels.push(rela(offset, index, R_X86_64_DTPOFF64));
                 }
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
@@ -967,6 +981,13 @@ impl<'d> Writer<'d> {
                 ((self.dyn_entries.len() + extra_dyn_entries) * 2 * size_of::<u64>()) as u64;
         }
 
+        // the first one determines where the block starts
+        let tls_sections = self.sections.iter().filter(|s| is_tls(&s.read())).collect::<Vec<_>>();
+        let tls_align = tls_sections.iter().map(|s| s.read().sh_addralign).max();
+        for s in tls_sections {
+            s.write().sh_addralign = tls_align.unwrap_or(1).max(1);
+        }
+
         self.sort_sections();
 
         self.generate_program_headers();
@@ -989,13 +1010,27 @@ impl<'d> Writer<'d> {
             let mut symbols = as_mut_sym_tab(&self.sym_section);
             section.write().patch_symbol_values(&mut symbols);
         }
+        let tls = self.program_headers.iter().find(|ph| ph.p_type == PT_TLS);
+        let tls_start = tls.map_or(0, |ph| ph.p_vaddr);
+        // the thread pointer points to the end of the block
+        let thread_pointer = tls_start + tls.map_or(0, |ph| round_to(ph.p_memsz, ph.p_align));
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
         // the loader fills only the slots of imported symbols
         for symbol in symbols.iter().filter(|s| s.dynamic().is_none()) {
+            let mut got_section = self.got_section.write();
+            let mut fill = |offset: usize, value: u64| {
+                got_section.chunk_mut(0)[offset..offset + size_of::<u64>()]
+                    .copy_from_slice(&value.to_le_bytes())
+            };
             if let Some(offset) = symbol.got_offset() {
-                self.got_section.write().chunk_mut(0)[offset..offset + size_of::<u64>()]
-                    .copy_from_slice(&symbol.st_value.to_le_bytes());
+                let base = if symbol.is_tls() { thread_pointer } else { 0 };
+                fill(offset, symbol.st_value.wrapping_sub(base));
+            }
+            if let Some(offset) = symbol.tls_gd_offset() {
+                // the program is the first module
+                fill(offset, 1);
+                fill(offset + size_of::<u64>(), symbol.st_value.wrapping_sub(tls_start));
             }
         }
         for section in
@@ -1006,11 +1041,19 @@ impl<'d> Writer<'d> {
                     got_address,
                     got_plt_address,
                     plt_address,
+                    thread_pointer,
                     &symbols,
                     &dyn_symbols,
                 );
             }
         }
+        drop(symbols);
+        // in a program these are offsets into the initial block
+        for symbol in
+            as_mut_sym_tab(&self.sym_section).iter_mut().filter(|s| s.is_tls() && !s.is_undefined())
+        {
+            symbol.st_value = symbol.st_value.wrapping_sub(tls_start);
+        }
     }
 
     // elf header
@@ -1127,8 +1170,31 @@ impl<'d> Writer<'d> {
                 flags = sh.sh_flags;
             }
         }
+        let tls = self.sections.iter().any(|sh| is_tls(&sh.read())) as usize;
         // 3 == INTERP, DYNAMIC, PHDR
-        count + 3
+        count + 3 + tls
+    }
+
+    /// The part of the program that each thread gets a copy of.
+    fn tls_program_header(&self) -> Option<ProgramHeader> {
+        let mut tls: Option<ProgramHeader> = None;
+        for sh in self.sections.iter().map(|sh| sh.read()).filter(|sh| is_tls(sh)) {
+            let ph = tls.get_or_insert_with(|| ProgramHeader {
+                p_type: PT_TLS,
+                p_flags: PF_R,
+                p_align: sh.sh_addralign,
+                p_offset: sh.sh_offset,
+                p_vaddr: sh.sh_addr,
+                p_paddr: sh.sh_addr,
+                p_filesz: 0,
+                p_memsz: 0,
+            });
+            ph.p_memsz = sh.sh_addr + sh.sh_size - ph.p_vaddr;
+            if sh.sh_type != SHT_NOBITS {
+                ph.p_filesz = ph.p_memsz;
+            }
+        }
+        tls
     }
 
     fn generate_program_headers(&mut self) {
@@ -1192,6 +1258,9 @@ impl<'d> Writer<'d> {
                 )
             }
         }
+        if let Some(ph) = self.tls_program_header() {
+            self.program_headers.push(ph);
+        }
         self.program_headers.insert(
             0,
             ProgramHeader {
@@ -1231,6 +1300,11 @@ const fn round_to(val: u64, multiple: u64) -> u64 {
     val + if rem != 0 { multiple - rem } else { 0 }
 }
 
+fn is_tls(sh: &SectionHeader) -> bool {
+    let flags = SHF_ALLOC | SHF_TLS;
+    sh.sh_flags as u32 & flags == flags
+}
+
 const PAGE_ALIGNMENT: u64 = 0x1000;
 
 fn get_load_program_header(
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index bb6ac47..19d7d4d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -67,6 +67,7 @@ impl Chunk {
         got_address: u64,
         got_plt_address: u64,
         plt_address: u64,
+        thread_pointer: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
     ) {
@@ -80,6 +81,7 @@ impl Chunk {
                 got_address,
                 got_plt_address,
                 plt_address,
+                thread_pointer,
             );
         }
     }
@@ -122,6 +124,7 @@ fn apply_relocation(
     got_address: u64,
     got_plt_address: u64,
     plt_address: u64,
+    thread_pointer: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
     // `stderr` is an object, we will know its address at runtime because
@@ -227,7 +230,7 @@ fn apply_relocation(
         }
         R_X86_64_TLSGD => {
             assert!(symbol.is_tls());
-            let got_offset = symbol.got_offset().unwrap();
+            let got_offset = symbol.tls_gd_offset().unwrap();
             let value = got_offset as i64 + got + a - p;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
@@ -237,8 +240,8 @@ fn apply_relocation(
             let value = got_offset as i64 + got + a - p;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
-        R_X86_64_TPOFF32 => {
-            let value = s + a;
+        R_X86_64_TPOFF32 if symbol.dynamic().is_none() => {
+            let value = s + a - thread_pointer as i64;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
         R_X86_64_PLT32 => {
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index f98c396..20aee2e 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -249,6 +249,13 @@ impl<'p> SymbolTable<'p> {
         self.symbols.values().chain(&self.locals).chain(self.section_syms.values().flatten())
     }
 
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut Symbol<'p>> {
+        self.symbols
+            .values_mut()
+            .chain(&mut self.locals)
+            .chain(self.section_syms.values_mut().flatten())
+    }
+
     /// Updates all objects symbols to point to `.copyrel`.
     /// Note: This assumes that `st_value`s already have the correct offsets
     /// into `.copyrel`.
diff --git a/src/symbol.rs b/src/symbol.rs
index 19f9bcc..ea37150 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -17,6 +17,8 @@ pub struct Symbol<'r> {
     gnu_hash: u32,
     reference: &'r Path,
     in_got: Option<usize>,
+    // two slots for the general dynamic TLS model
+    in_got_tls_gd: Option<usize>,
     in_plt: Option<usize>,
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
@@ -33,6 +35,7 @@ impl<'r> Symbol<'r> {
             hash,
             gnu_hash,
             in_got: None,
+            in_got_tls_gd: None,
             in_plt: None,
             in_got_plt: None,
             relocation_offset: None,
@@ -85,6 +88,14 @@ impl<'r> Symbol<'r> {
         self.in_got
     }
 
+    pub const fn tls_gd_offset(&self) -> Option<usize> {
+        self.in_got_tls_gd
+    }
+
+    pub fn set_tls_gd_offset(&mut self, offset: usize) {
+        self.in_got_tls_gd = Some(offset);
+    }
+
     pub const fn got_plt_offset(&self) -> Option<usize> {
         self.in_got_plt
     }
-- 
2.43.0


From bdfb7bc3db7c664df2f9b385dccbc84017c6b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:47 +0000
Subject: [PATCH 45/78] fix: libraries find a copied object by all its names

---
 src/elf.rs    | 87 +++++++++++++++++++++++++++++++++++++++++++--------
 src/lib.rs    | 15 +++++++--
 src/symbol.rs | 11 +++++++
 3 files changed, 98 insertions(+), 15 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 21eb64d..12d4b02 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -20,7 +20,7 @@ use parking_lot::{
 };
 use std::{
     cmp::Ordering,
-    collections::HashMap,
+    collections::{hash_map::Entry, HashMap, HashSet},
     convert::TryInto,
     fs::{remove_file, File, Permissions},
     io::Write,
@@ -144,6 +144,8 @@ pub enum DynTag {
 pub struct Writer<'d> {
     out: &'d Path,
     eh: Header,
+    // other names of imported objects
+    aliases: Vec<SymbolRef>,
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
@@ -350,6 +352,7 @@ impl<'d> Writer<'d> {
         Ok(Self {
             out,
             eh,
+            aliases: vec![],
             dyn_rels: vec![],
             plt_rels: vec![],
             sections,
@@ -506,15 +509,19 @@ impl<'d> Writer<'d> {
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
         elf_sym.st_shndx = SHN_UNDEF as u16;
-        elf_sym.st_value = 0;
+        let lib_value = std::mem::take(&mut elf_sym.st_value);
         let r = Self::add_symbol_inner(
             elf_sym,
             name,
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
-        )
-        .map(|(r, _)| r);
+        );
+        if let Ok((dyn_ref, Added::Taken)) = r {
+            let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+            dyn_symbols.get_mut(dyn_ref).unwrap().set_lib_value(lib_value);
+        }
+        let r = r.map(|(r, _)| r);
         if let Ok(dyn_ref) = r {
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
@@ -531,6 +538,31 @@ impl<'d> Writer<'d> {
         r.map(Some)
     }
 
+    /// Adds another name of an object that is imported from the library, which has to find
+    /// the copy by all of them.
+    pub fn add_alias(
+        &mut self,
+        elf_sym: Sym,
+        name: &str,
+        reference: &'d Path,
+    ) -> Result<(), ErrorType> {
+        let ours = as_str_tab(&self.sym_str_section)
+            .get(name.to_string())
+            .map(|e| SymbolRef::Named(e.offset as u32));
+        let is_ours = |r| as_sym_tab(&self.sym_section).get(r).is_some();
+        let dyn_names = as_str_tab(&self.dyn_sym_str_section).get(name.to_string());
+        let is_imported = |e: string_table::Entry| {
+            let dyn_ref = SymbolRef::Named(e.offset as u32);
+            as_sym_tab(&self.dyn_sym_section).get(dyn_ref).is_some()
+        };
+        if ours.map_or(false, is_ours) || dyn_names.map_or(false, is_imported) {
+            return Ok(());
+        }
+        let alias = self.add_dyn_symbol(elf_sym, name, reference)?;
+        self.aliases.extend(alias);
+        Ok(())
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -897,12 +929,33 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// Removes the aliases of objects that turned out not to be imported.
+    fn remove_unused_aliases(&mut self) {
+        let symbols = as_sym_tab(&self.sym_section);
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+        let imports = symbols.iter().filter_map(|s| s.dynamic()).collect::<HashSet<_>>();
+        let objects = imports
+            .iter()
+            .map(|d| &dyn_symbols[*d])
+            .filter(|s| s.is_object())
+            .map(|s| (s.reference().to_owned(), s.lib_value()))
+            .collect::<HashSet<_>>();
+        for alias in self.aliases.iter().filter(|a| !imports.contains(a)) {
+            let sym = &dyn_symbols[*alias];
+            if !objects.contains(&(sym.reference().to_owned(), sym.lib_value())) {
+                dyn_symbols.remove(*alias);
+            }
+        }
+    }
+
     fn assign_section_addresses(&mut self) {
         self.scan_relocations();
 
         self.resize_got_section();
         self.resize_got_plt_section();
 
+        self.remove_unused_aliases();
+
         // XXX: this needs to be done out of band...
         self.dyn_sym_section.write().expand();
         let dyn_syms = as_sym_tab(&self.dyn_sym_section);
@@ -938,6 +991,8 @@ impl<'d> Writer<'d> {
                 .filter_map(|s| s.dynamic().map(|d| (s, d)))
                 .collect::<Vec<_>>();
             imports.sort_unstable_by_key(|(_, d)| d.st_name());
+            // where the object of a library at some address is copied to
+            let mut copies = HashMap::new();
             for (sym, dyn_sym) in imports {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
@@ -951,21 +1006,27 @@ impl<'d> Writer<'d> {
                 }
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
-                    let size = dyn_symbol.st_size;
-                    let offset = self
-                        .copy_rel_section
-                        .write()
-                        .inner_mut::<CopyRel>()
-                        .unwrap()
-                        .insert(dyn_sym, size);
-                    self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
-                    dyn_symbol.st_value = offset;
+                    let object = (dyn_symbol.reference().to_owned(), dyn_symbol.lib_value());
+                    if let Entry::Vacant(copy) = copies.entry(object) {
+                        let size = dyn_symbol.st_size;
+                        let offset = self
+                            .copy_rel_section
+                            .write()
+                            .inner_mut::<CopyRel>()
+                            .unwrap()
+                            .insert(dyn_sym, size);
+                        self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
+                        copy.insert(offset);
+                    }
                 }
                 if let Some(offset) = sym.got_plt_offset() {
                     sym.set_relocation_offset(self.plt_rels.len());
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            for sym in dyn_syms.iter_mut().filter(|s| s.is_object()) {
+                sym.st_value = copies[&(sym.reference().to_owned(), sym.lib_value())];
+            }
             // the slots are known only now
             self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
diff --git a/src/lib.rs b/src/lib.rs
index 88e8d15..c2a5211 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::Elf,
+    elf::{Elf, Sym},
     elf64::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
@@ -16,7 +16,7 @@ use goblin::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_REL, SHT_RELA,
             SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::STB_LOCAL,
+        sym::{STB_LOCAL, STT_OBJECT},
     },
 };
 use std::{
@@ -169,6 +169,17 @@ impl Linker {
                     if name == inner_name {
                         entry.1 = true;
                         writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
+                        // the library might use the object by another name
+                        let is_alias = |s: &Sym| {
+                            sym.st_type() == STT_OBJECT
+                                && s.st_type() == STT_OBJECT
+                                && (s.st_shndx, s.st_value) == (sym.st_shndx, sym.st_value)
+                        };
+                        for alias in elf.dynsyms.iter().filter(is_alias) {
+                            let name =
+                                get_dyn_symbol_name(&elf, alias.st_name).map_path_err(path)?;
+                            writer.add_alias(alias.into(), name, path).map_path_err(path)?;
+                        }
                     }
                 }
             }
diff --git a/src/symbol.rs b/src/symbol.rs
index ea37150..5b5cf7f 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -23,6 +23,8 @@ pub struct Symbol<'r> {
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
+    // the value that the library gives the symbol
+    lib_value: u64,
     // whether our PLT entry is the symbol's address for the whole program
     canonical_plt: bool,
 }
@@ -40,6 +42,7 @@ impl<'r> Symbol<'r> {
             in_got_plt: None,
             relocation_offset: None,
             dynamic: None,
+            lib_value: 0,
             canonical_plt: false,
         }
     }
@@ -145,6 +148,14 @@ impl<'r> Symbol<'r> {
         self.dynamic.take()
     }
 
+    pub const fn lib_value(&self) -> u64 {
+        self.lib_value
+    }
+
+    pub fn set_lib_value(&mut self, value: u64) {
+        self.lib_value = value;
+    }
+
     pub const fn has_canonical_plt(&self) -> bool {
         self.canonical_plt
     }
-- 
2.43.0


From f333328be35793d086e8da326838644f07c27e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:16 +0000
Subject: [PATCH 46/78] fix: accept --hash-style with a separate argument, as
 documented

---
 src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 040d792..b90f673 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -125,6 +125,13 @@ fn handle_linker_args(
                 app.opts.output = out.into();
                 continue;
             }
+            "--hash-style" => {
+                let style = args
+                    .next()
+                    .ok_or_else(|| "Missing argument <STYLE> for '--hash-style'.".to_string())?;
+                app.opts.hash_style = HashStyle::from_str(&style)?;
+                continue;
+            }
             "--eh-frame-hdr" => {
                 app.opts.eh_frame_hdr = true;
                 continue;
-- 
2.43.0


From 4be61ea3a090d9bebd06c2b357d3a54b4b2bf5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:15 +0000
Subject: [PATCH 47/78] fix: absolute 64-bit fields wrap around

---
 src/elf/chunk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 19d7d4d..b26c0d6 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -142,7 +142,9 @@ fn apply_relocation(
     let offset = rel.r_offset as usize;
     match (rel.r_info & 0xffff_ffff) as u32 {
         R_X86_64_NONE => {}
-        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
+        R_X86_64_64 => {
+            (&mut data[offset..]).write_i64::<LittleEndian>(s.wrapping_add(a)).unwrap()
+        }
         R_X86_64_32 => {
             // zero-extended
             (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
-- 
2.43.0


From eabc0f45713da590c8c4210cac2a81437d6b82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:01 +0000
Subject: [PATCH 48/78] fix: apply relocations of sections that aren't loaded

---
 src/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 12d4b02..f8a48e7 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1266,6 +1266,10 @@ impl<'d> Writer<'d> {
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
             let mut sh = sh.write();
+            if sh.sh_flags as u32 & SHF_ALLOC == 0 {
+                // not loaded, but e.g. debug information has relocations
+                sh.set_address(0);
+            }
             if sh.sh_flags != flags {
                 // push old program header
                 if let Some(ph) = program_header.take() {
-- 
2.43.0


From 020b98dd8ed7a258da134a79b43b9c8911583bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:15 +0000
Subject: [PATCH 49/78] fix: a copied object may have a second name that is
 local to an object

---
 src/elf.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index f8a48e7..276ee69 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -526,13 +526,11 @@ impl<'d> Writer<'d> {
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
             {
-                self.sym_section
-                    .write()
-                    .inner_mut::<SymbolTable<'d>>()
-                    .unwrap()
-                    .get_mut(SymbolRef::Named(entry.offset as u32))
-                    .unwrap()
-                    .set_dynamic(dyn_ref);
+                // there is none if only local symbols have that name
+                let mut symbols = as_mut_sym_tab(&self.sym_section);
+                if let Some(sym) = symbols.get_mut(SymbolRef::Named(entry.offset as u32)) {
+                    sym.set_dynamic(dyn_ref);
+                }
             }
         }
         r.map(Some)
-- 
2.43.0


From 0f22ed6582ec63d1a4473bae77127380c1e29cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:58 +0000
Subject: [PATCH 50/78] fix: the copy of an object is as large as the largest
 of its names

---
 src/elf.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 276ee69..d5ffecf 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -19,7 +19,7 @@ use parking_lot::{
     RwLockReadGuard as RGuard, RwLockWriteGuard as WGuard,
 };
 use std::{
-    cmp::Ordering,
+    cmp::{Ordering, Reverse},
     collections::{hash_map::Entry, HashMap, HashSet},
     convert::TryInto,
     fs::{remove_file, File, Permissions},
@@ -989,6 +989,14 @@ impl<'d> Writer<'d> {
                 .filter_map(|s| s.dynamic().map(|d| (s, d)))
                 .collect::<Vec<_>>();
             imports.sort_unstable_by_key(|(_, d)| d.st_name());
+            // the symbol that covers the most of the object of a library at some address
+            let mut largest = HashMap::new();
+            for (name, sym) in dyn_syms.named().iter().filter(|(_, sym)| sym.is_object()) {
+                let cover = (sym.st_size, Reverse(*name));
+                let object = (sym.reference().to_owned(), sym.lib_value());
+                let most = largest.entry(object).or_insert(cover);
+                *most = cover.max(*most);
+            }
             // where the object of a library at some address is copied to
             let mut copies = HashMap::new();
             for (sym, dyn_sym) in imports {
@@ -1006,7 +1014,8 @@ impl<'d> Writer<'d> {
                 if dyn_symbol.is_object() {
                     let object = (dyn_symbol.reference().to_owned(), dyn_symbol.lib_value());
                     if let Entry::Vacant(copy) = copies.entry(object) {
-                        let size = dyn_symbol.st_size;
+                        let (size, Reverse(name)) = largest[copy.key()];
+                        let index = dyn_sym_indices[&name];
                         let offset = self
                             .copy_rel_section
                             .write()
-- 
2.43.0


From 0e951d370ce4e4cf79fa7b496f92cc5cac1eb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:03 +0000
Subject: [PATCH 51/78] fix: refuse to overwrite an input with the output

---
 src/main.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b90f673..1e8fb38 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,11 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{io::Read, path::PathBuf, str::FromStr};
+use std::{
+    io::Read,
+    os::unix::fs::MetadataExt,
+    path::{Path, PathBuf},
+    str::FromStr,
+};
 
 mod linker_script;
 
@@ -213,6 +218,13 @@ fn add_script(script: PathBuf, as_needed: bool, args: &mut AppArgs) -> Result<()
     Ok(())
 }
 
+fn is_same_file(a: &Path, b: &Path) -> bool {
+    match (a.metadata(), b.metadata()) {
+        (Ok(a), Ok(b)) => (a.dev(), a.ino()) == (b.dev(), b.ino()),
+        _ => false,
+    }
+}
+
 fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
     for (lib, as_needed, is_lib) in std::mem::take(&mut args.inputs) {
         let mut found = None;
@@ -236,6 +248,9 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
             }
         }
         if let Some(lib) = found.take() {
+            if is_same_file(&lib, &args.opts.output) {
+                return Err(format!("{} is an input and the output.", lib.display()));
+            }
             let file_type = file_type(&lib).map_err(|e| format!("{}: {}", lib.display(), e))?;
             match file_type {
                 FileType::ElfObject => {
-- 
2.43.0


From f308ba12c27fd3142826826a4620a02c0f64179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:04 +0000
Subject: [PATCH 52/78] fix: a link that can't report the program's path
 succeeds nonetheless

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e8fb38..a09e7fd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,7 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
 use std::{
-    io::Read,
+    io::{Read, Write},
     os::unix::fs::MetadataExt,
     path::{Path, PathBuf},
     str::FromStr,
@@ -58,7 +58,8 @@ fn main() -> Result<(), String> {
     if let Err(e) = linker.link() {
         Err(format!("{}", e))
     } else {
-        println!("Elf executable in: {}", linker.options.output.display());
+        // the program is complete even if nobody can be told about it
+        let _ = writeln!(std::io::stdout(), "Elf executable in: {}", linker.options.output.display());
         Ok(())
     }
 }
-- 
2.43.0


From 3118ddaeb56e43a5914928b6d13f40504a9fff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:47 +0000
Subject: [PATCH 53/78] fix: empty an incomplete program that can't be removed

---
 src/elf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index d5ffecf..0f55af9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1173,7 +1173,9 @@ impl<'d> Writer<'d> {
             written = out.set_permissions(Permissions::from_mode(0o755));
         }
         if written.is_err() && self.out.is_file() {
-            let _ = remove_file(self.out);
+            if remove_file(self.out).is_err() {
+                let _ = out.set_len(0);
+            }
         }
         written
     }
-- 
2.43.0


From b32fee9f3220e507b720260aff3c298083147907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:51:05 +0000
Subject: [PATCH 54/78] fix: ignore the value of an undefined symbol

---
 src/elf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f55af9..07aa2c5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -467,11 +467,15 @@ impl<'d> Writer<'d> {
 
     pub fn add_symbol<'s>(
         &mut self,
-        elf_sym: Sym,
+        mut elf_sym: Sym,
         sec_ref: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
+        if elf_sym.st_shndx == SHN_UNDEF as u16 {
+            // what isn't defined has no value
+            elf_sym.st_value = 0;
+        }
         let (r, added) = Self::add_symbol_inner(
             elf_sym,
             name,
-- 
2.43.0


From 8f5b1af2adfb3aea4c942f630af19e640f3e7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:36 +0000
Subject: [PATCH 55/78] fix: refuse archives that end within a member

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2a5211..b7e3591 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,7 +7,7 @@ mod utils;
 
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
-    archive::Archive,
+    archive::{Archive, Member},
     elf::{Elf, Sym},
     elf64::{
         header::{EM_X86_64, ET_DYN, ET_REL},
@@ -198,6 +198,10 @@ impl Linker {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
+            let end = |m: &Member| m.offset.saturating_add(m.size() as u64);
+            if (0..ar.len()).filter_map(|i| ar.get_at(i)).any(|m| end(m) > data.len() as u64) {
+                return Err("The archive is truncated.".to_string()).map_path_err(path);
+            }
             let indexed = |s: &elf::SymbolRef| match writer.symbol_name(*s) {
                 Some(name) => ar.member_of_symbol(&*name).is_some(),
                 None => false,
-- 
2.43.0


From 40ab0fc4a5304b2f8026be2da8fbe8e014a42214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:01:20 +0000
Subject: [PATCH 56/78] fix: refuse sections that the linker makes itself and
 odd alignments

A section of an input that was named like one of the linker's own got
merged into it, which ended in a deadlock or a broken program; alignments
that aren't powers of two made the linker run out of memory.
---
 src/elf.rs | 35 ++++++++++++++++++++++++++++++++---
 src/lib.rs | 26 +++++++++++++++++---------
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 07aa2c5..5b38374 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -72,6 +72,10 @@ const PLT_ENTRY_PUSH_INSTR_SIZE: usize = 5;
 // The PLT header is just as big.
 const PLT_ENTRY_SIZE: usize = 16;
 
+// Programs are linked into the first 2 GiB of the address space.
+const MAX_SECTION_ALIGN: u64 = 1 << 30;
+const MAX_SECTION_SIZE: u64 = 1 << 31;
+
 #[derive(Clone, Copy, Debug)]
 pub enum DynTag {
     /// Marks end of dynamic section
@@ -149,6 +153,8 @@ pub struct Writer<'d> {
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
+    // how many of the sections are made by the linker
+    own_sections: usize,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
     dyn_entries: Vec<(DynTag, u64)>,
@@ -355,6 +361,7 @@ impl<'d> Writer<'d> {
             aliases: vec![],
             dyn_rels: vec![],
             plt_rels: vec![],
+            own_sections: sections.len(),
             sections,
             // first entry reserved
             got_len: 1,
@@ -388,7 +395,21 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
+        let name = name.into();
+        if sh.sh_addralign > MAX_SECTION_ALIGN
+            || !(sh.sh_addralign == 0 || sh.sh_addralign.is_power_of_two())
+        {
+            let e = format!("Alignment {} of section {} isn't supported.", sh.sh_addralign, &*name);
+            return Err(ErrorType::Other(e));
+        }
+        if sh.sh_size >= MAX_SECTION_SIZE {
+            let e = format!("Size {} of section {} isn't supported.", sh.sh_size, &*name);
+            return Err(ErrorType::Other(e));
+        }
+        if self.is_own_section(&name) {
+            return Err(ErrorType::Other(format!("Section {} is made by the linker.", &*name)));
+        }
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
         let new_chunk = match data {
@@ -434,7 +455,15 @@ impl<'d> Writer<'d> {
             }
             (section_ptr, chunk)
         };
-        SectionRef { section, chunk }
+        Ok(SectionRef { section, chunk })
+    }
+
+    /// Whether the name is that of a section that isn't put together from
+    /// sections of the inputs.
+    fn is_own_section(&self, name: &Name) -> bool {
+        let names = self.shstr_section.read();
+        let entry = names.inner::<StringTable>().unwrap().get(name.clone());
+        entry.map_or(false, |e| e.index < self.own_sections)
     }
 
     pub fn push_section(
@@ -442,7 +471,7 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
         let data = data.map(|v| v.to_owned());
         self.add_section(name, section, data)
     }
diff --git a/src/lib.rs b/src/lib.rs
index b7e3591..9d5fbe6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,8 +13,8 @@ use goblin::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_REL, SHT_RELA,
-            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL,
+            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::{STB_LOCAL, STT_OBJECT},
     },
@@ -25,8 +25,17 @@ use std::{
     path::{Path, PathBuf},
 };
 
-const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB, SHT_GROUP];
+const SKIPPED_SECTIONS: &[u32] = &[
+    SHT_NULL,
+    SHT_SYMTAB,
+    SHT_DYNSYM,
+    SHT_STRTAB,
+    SHT_RELA,
+    SHT_DYNAMIC,
+    SHT_REL,
+    SHT_SHLIB,
+    SHT_GROUP,
+];
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -63,11 +72,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            let section_ref = writer.push_section(
-                name.to_owned(),
-                section,
-                section.file_range().map(|r| &self.input.data[r]),
-            );
+            let data = section.file_range().map(|r| &self.input.data[r]);
+            let section_ref = writer
+                .push_section(name.to_owned(), section, data)
+                .map_path_err(self.input.path)?;
             log::trace!(
                 "Section '{}:{}' of {:?} mapped to {:?}",
                 i,
-- 
2.43.0


From 7e54d7369293cdd2a8f855ed2ae64a2f6dc5f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:17 +0000
Subject: [PATCH 57/78] fix: apply GOTPCREL relocations

---
 src/elf/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index b26c0d6..29ae3e3 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -191,7 +191,7 @@ fn apply_relocation(
                 }
             }
         }
-        R_X86_64_GOTPCRELX => {
+        R_X86_64_GOTPCREL | R_X86_64_GOTPCRELX => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             let value: i32 = (g + got + a - p).try_into().unwrap();
             (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
-- 
2.43.0


From ab79ed46021d96b8c78435d669a138068a2594fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:38 +0000
Subject: [PATCH 58/78] fix: diagnose relocations that can't be applied instead
 of panicking

---
 src/elf.rs       |  10 ++--
 src/elf/chunk.rs | 120 +++++++++++++++++++++++++++--------------------
 src/lib.rs       |   2 +-
 3 files changed, 77 insertions(+), 55 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 5b38374..2807584 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1098,7 +1098,7 @@ impl<'d> Writer<'d> {
         self.patch_plt_and_got_plt();
     }
 
-    fn handle_relocations(&mut self) {
+    fn handle_relocations(&mut self) -> Result<(), String> {
         let got_address = self.got_address();
         let got_plt_address = self.got_plt_address();
         let plt_address = self.plt_address();
@@ -1145,7 +1145,7 @@ impl<'d> Writer<'d> {
                     thread_pointer,
                     &symbols,
                     &dyn_symbols,
-                );
+                )?;
             }
         }
         drop(symbols);
@@ -1155,6 +1155,7 @@ impl<'d> Writer<'d> {
         {
             symbol.st_value = symbol.st_value.wrapping_sub(tls_start);
         }
+        Ok(())
     }
 
     // elf header
@@ -1165,12 +1166,12 @@ impl<'d> Writer<'d> {
     // section header 1
     // section header 2
     // ...
-    pub fn compute_sections(&mut self) {
+    pub fn compute_sections(&mut self) -> Result<(), String> {
         self.assign_section_addresses();
 
         self.handle_special_symbols();
 
-        self.handle_relocations();
+        self.handle_relocations()?;
 
         self.compute_tables();
 
@@ -1194,6 +1195,7 @@ impl<'d> Writer<'d> {
         ph.p_filesz = ph.p_memsz;
         ph.p_vaddr = self.eh.e_phoff + self.start_p_vaddr;
         ph.p_paddr = ph.p_vaddr;
+        Ok(())
     }
 
     /// Writes the complete program to its place, or nothing at all.
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 29ae3e3..b279101 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -3,7 +3,11 @@ use goblin::elf64::{
     header::EM_X86_64,
     reloc::{Rela, *},
 };
-use std::{collections::HashSet, convert::TryInto, io::Write};
+use std::{
+    collections::HashSet,
+    convert::{TryFrom, TryInto},
+    io::Write,
+};
 
 use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 
@@ -70,7 +74,7 @@ impl Chunk {
         thread_pointer: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
-    ) {
+    ) -> Result<(), String> {
         for (rela, symbol_ref) in &self.relocations {
             apply_relocation(
                 *self.address.as_ref().unwrap(),
@@ -82,8 +86,16 @@ impl Chunk {
                 got_plt_address,
                 plt_address,
                 thread_pointer,
-            );
+            )
+            .ok_or_else(|| {
+                format!(
+                    "Relocation {} at offset {:#x} of a section isn't supported or doesn't fit.",
+                    r_to_str((rela.r_info & 0xffff_ffff) as u32, EM_X86_64),
+                    rela.r_offset,
+                )
+            })?;
         }
+        Ok(())
     }
 
     pub fn set_address(&mut self, addr: u64) {
@@ -125,80 +137,83 @@ fn apply_relocation(
     got_plt_address: u64,
     plt_address: u64,
     thread_pointer: u64,
-) {
+) -> Option<()> {
     // e.g. `stderr` will be undefined, but we might reference it. Since
     // `stderr` is an object, we will know its address at runtime because
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
-    let s: i64 = match symbol.dynamic() {
-        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym).unwrap().st_value as i64,
+    let s: i128 = match symbol.dynamic() {
+        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym)?.st_value.into(),
         // absolute symbols might be negative
-        _ => symbol.st_value as i64,
+        _ => (symbol.st_value as i64).into(),
     };
-    let a = rel.r_addend;
-    let p: i64 = (chunk_address + rel.r_offset).try_into().unwrap();
+    let a: i128 = rel.r_addend.into();
+    let p: i128 = i128::from(chunk_address) + i128::from(rel.r_offset);
     let _z = symbol.st_size;
-    let got: i64 = got_address.try_into().unwrap();
+    let got: i128 = got_address.into();
     let l = symbol.plt_index();
-    let offset = rel.r_offset as usize;
+    let offset = usize::try_from(rel.r_offset).ok()?;
+    if offset > data.len() {
+        return None;
+    }
     match (rel.r_info & 0xffff_ffff) as u32 {
         R_X86_64_NONE => {}
         R_X86_64_64 => {
-            (&mut data[offset..]).write_i64::<LittleEndian>(s.wrapping_add(a)).unwrap()
+            (&mut data[offset..]).write_i64::<LittleEndian>((s + a) as i64).ok()?
         }
         R_X86_64_32 => {
             // zero-extended
-            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().ok()?).ok()?;
         }
         R_X86_64_32S => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap()
+            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().ok()?).ok()?
         }
         R_X86_64_PC32 => (&mut data[offset..])
-            .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-            .unwrap(),
+            .write_i32::<LittleEndian>((s + a - p).try_into().ok()?)
+            .ok()?,
         R_X86_64_GOT32 => {
             // relative to `_GLOBAL_OFFSET_TABLE_`
-            let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
+            let g: i128 = symbol.got_offset()?.try_into().ok()?;
             (&mut data[offset..])
                 .write_i32::<LittleEndian>(
-                    (g + got - got_plt_address as i64 + a).try_into().unwrap(),
+                    (g + got - got_plt_address as i128 + a).try_into().ok()?,
                 )
-                .unwrap()
+                .ok()?
         }
         R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
-            let buf = &mut data[offset - 2..];
+            let buf = data.get_mut(offset.checked_sub(2)?..offset + 4)?;
             // the field moves one byte to the front
-            let value: i32 = (s + a - p + 1).try_into().unwrap();
+            let value: i32 = (s + a - p + 1).try_into().ok()?;
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
                     buf[0] = 0xe8;
-                    buf[1..5].as_mut().write_i32::<LittleEndian>(value).unwrap();
+                    buf[1..5].as_mut().write_i32::<LittleEndian>(value).ok()?;
                     buf[5] = 0x90;
                 }
                 // jmp *foo@GOTPCREL(%rip) -> jmp foo nop
                 [0xff, 0x25] => {
                     buf[0] = 0xe9;
-                    buf[1..5].as_mut().write_i32::<LittleEndian>(value).unwrap();
+                    buf[1..5].as_mut().write_i32::<LittleEndian>(value).ok()?;
                     buf[5] = 0x90;
                 }
                 // other instructions go through the GOT
                 _ => {
-                    let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
-                    let value: i32 = (g + got + a - p).try_into().unwrap();
-                    buf[2..].as_mut().write_i32::<LittleEndian>(value).unwrap();
+                    let g: i128 = symbol.got_offset()?.try_into().ok()?;
+                    let value: i32 = (g + got + a - p).try_into().ok()?;
+                    buf[2..].as_mut().write_i32::<LittleEndian>(value).ok()?;
                 }
             }
         }
         R_X86_64_GOTPCREL | R_X86_64_GOTPCRELX => {
-            let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
-            let value: i32 = (g + got + a - p).try_into().unwrap();
-            (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
+            let g: i128 = symbol.got_offset()?.try_into().ok()?;
+            let value: i32 = (g + got + a - p).try_into().ok()?;
+            (&mut data[offset..]).write_i32::<LittleEndian>(value).ok()?;
         }
         R_X86_64_REX_GOTPCRELX => {
             if symbol.dynamic().is_none() {
-                let buf = &mut data[offset - 3..];
+                let buf = data.get_mut(offset.checked_sub(3)?..offset + 4)?;
                 let instr = match buf[..3] {
                     [0x48, 0x8b, 0x05] => [0x48, 0x8d, 0x05], // mov 0x0(%rip),%rax -> lea 0x0(%rip),%rax
                     [0x48, 0x8b, 0x1d] => [0x48, 0x8d, 0x1d], // mov 0x0(%rip),%rbx -> lea 0x0(%rip),%rbx
@@ -220,37 +235,42 @@ fn apply_relocation(
                     ref x => [x[0], x[1], x[2]],
                 };
                 let target =
-                    if instr == buf[..3] { symbol.got_offset().unwrap() as i64 + got } else { s };
-                buf[..3].as_mut().write_all(&instr).unwrap();
-                let value: i32 = (target + a - p).try_into().unwrap();
-                buf[3..].as_mut().write_i32::<LittleEndian>(value).unwrap();
+                    if instr == buf[..3] { symbol.got_offset()? as i128 + got } else { s };
+                buf[..3].as_mut().write_all(&instr).ok()?;
+                let value: i32 = (target + a - p).try_into().ok()?;
+                buf[3..].as_mut().write_i32::<LittleEndian>(value).ok()?;
             } else {
-                let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
-                let value: i32 = (g + got + a - p).try_into().unwrap();
-                (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
+                let g: i128 = symbol.got_offset()?.try_into().ok()?;
+                let value: i32 = (g + got + a - p).try_into().ok()?;
+                (&mut data[offset..]).write_i32::<LittleEndian>(value).ok()?;
             };
         }
         R_X86_64_TLSGD => {
-            assert!(symbol.is_tls());
-            let got_offset = symbol.tls_gd_offset().unwrap();
-            let value = got_offset as i64 + got + a - p;
-            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
+            if !symbol.is_tls() {
+                return None;
+            }
+            let got_offset = symbol.tls_gd_offset()?;
+            let value = got_offset as i128 + got + a - p;
+            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().ok()?).ok()?;
         }
         R_X86_64_GOTTPOFF => {
-            assert!(symbol.is_tls());
-            let got_offset = symbol.got_offset().unwrap();
-            let value = got_offset as i64 + got + a - p;
-            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
+            if !symbol.is_tls() {
+                return None;
+            }
+            let got_offset = symbol.got_offset()?;
+            let value = got_offset as i128 + got + a - p;
+            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().ok()?).ok()?;
         }
         R_X86_64_TPOFF32 if symbol.dynamic().is_none() => {
-            let value = s + a - thread_pointer as i64;
-            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
+            let value = s + a - thread_pointer as i128;
+            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().ok()?).ok()?;
         }
         R_X86_64_PLT32 => {
-            let l: i64 = plt_entry_addr(plt_address, l.unwrap());
+            let l: i128 = plt_entry_addr(plt_address, l?).into();
             let value = l + a - p;
-            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().ok()?).ok()?;
         }
-        x => unimplemented!("Relocation {}", r_to_str(x, EM_X86_64)),
+        _ => return None,
     }
+    Some(())
 }
diff --git a/src/lib.rs b/src/lib.rs
index 9d5fbe6..fb11674 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -296,7 +296,7 @@ impl Linker {
             }
         }
         self.add_needed_libs(&mut writer)?;
-        writer.compute_sections();
+        writer.compute_sections().map_path_err(self.options.output.as_path())?;
         let mut undefined = writer.undefined_symbols();
         // weak references needn't be resolved
         undefined.retain(|u| !writer.is_weak(*u));
-- 
2.43.0


From 22da5dd37198816f51ee39e45e0a09e29c569ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:15 +0000
Subject: [PATCH 59/78] fix: diagnose section contents outside the file

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb11674..96005cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -72,7 +72,15 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            let data = section.file_range().map(|r| &self.input.data[r]);
+            let data = section
+                .file_range()
+                .map(|r| {
+                    self.input.data.get(r).ok_or_else(|| {
+                        format!("The contents of section {} lie outside the file.", name)
+                    })
+                })
+                .transpose()
+                .map_path_err(self.input.path)?;
             let section_ref = writer
                 .push_section(name.to_owned(), section, data)
                 .map_path_err(self.input.path)?;
-- 
2.43.0


From ffbb7bab37dc8068191cfc34fe26e607e8e1ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:16 +0000
Subject: [PATCH 60/78] fix: refuse relocations for sections that don't exist

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 96005cc..ce0bea7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,6 +130,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
+            if elf.section_headers[*section_index].sh_info as usize >= elf.section_headers.len() {
+                let e = "Relocations for a section that doesn't exist.".to_string();
+                return Err(e).map_path_err(self.input.path);
+            }
             for rel in rels.iter() {
                 let target = elf.section_headers[*section_index].sh_info as usize;
                 let index = if let Some(sec) = self.section_relocations.get(&target) {
-- 
2.43.0


From 972eceba4453ccea33721e3552300497cefd28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:17 +0000
Subject: [PATCH 61/78] fix: refuse tables whose entries have an unexpected
 size

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ce0bea7..464d816 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -332,6 +332,13 @@ fn parse_elf(data: &[u8], e_type: u16) -> Result<Elf<'_>, ErrorType> {
     {
         return Err(ErrorType::Other("Not an x86-64 ELF file of the expected type.".into()));
     }
+    let sizes_fit = elf.section_headers.iter().all(|sh| {
+        // the entries of symbol tables and of relocation sections have the same size
+        !matches!(sh.sh_type, SHT_SYMTAB | SHT_DYNSYM | SHT_RELA) || sh.sh_size % 24 == 0
+    });
+    if !sizes_fit || (header.e_shnum > 0 && header.e_shentsize != 64) {
+        return Err(ErrorType::Other("A table has entries of an unexpected size.".into()));
+    }
     Ok(elf)
 }
 
-- 
2.43.0


From ab6d49f4bc637d8f7b2a4b1c7d8ed4a9e56677b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:48 +0000
Subject: [PATCH 62/78] fix: refuse dynamic linker paths without a file name

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index a09e7fd..2bb4391 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -150,6 +150,9 @@ fn handle_linker_args(
                 let linker = args
                     .next()
                     .ok_or_else(|| "Missing argument <PATH> for '-dynamic-linker'.".to_string())?;
+                if Path::new(&linker).file_name().is_none() {
+                    return Err(format!("Invalid path '{}' for '-dynamic-linker'.", linker));
+                }
                 app.opts.dynamic_linker = linker.into();
                 continue;
             }
-- 
2.43.0


From dbc12f1e2374df4abe232f3372c5e4b0a8f6b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:49 +0000
Subject: [PATCH 63/78] fix: accept empty archives

---
 src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2bb4391..1b78b9e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,14 +73,13 @@ enum FileType {
 }
 
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
-    let mut f = std::fs::File::open(&input)?;
-    let mut header = [0; 18];
-    if f.read_exact(&mut header).is_err() {
-        return Ok(FileType::Text);
-    }
+    let f = std::fs::File::open(&input)?;
+    let mut header = Vec::with_capacity(18);
+    f.take(18).read_to_end(&mut header)?;
+    // an empty archive is just its magic
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
-    } else if header.starts_with(&[0x7f, b'E', b'L', b'F']) {
+    } else if header.len() == 18 && header.starts_with(&[0x7f, b'E', b'L', b'F']) {
         if header.ends_with(&[ET_DYN as u8, ((ET_DYN & 0xff00) >> 8) as u8]) {
             Ok(FileType::ElfSharedLib)
         } else {
-- 
2.43.0


From 1d82a35bc762100e40cbdcb86a72f56c15e099df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:49 +0000
Subject: [PATCH 64/78] fix: diagnose arguments that aren't valid text

---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1b78b9e..31015be 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -91,8 +91,11 @@ fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
 }
 
 fn parse_args() -> Result<AppArgs, String> {
-    let mut args = std::env::args().peekable();
-    let _ = args.next();
+    let args = std::env::args_os()
+        .skip(1)
+        .map(|a| a.into_string().map_err(|a| format!("Invalid argument {:?}.", a)))
+        .collect::<Result<Vec<_>, _>>()?;
+    let mut args = args.into_iter().peekable();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
     search_for_inputs(&mut app)?;
-- 
2.43.0


From c57556e619dadfeb78400ba87228b5a353cc3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:32:19 +0000
Subject: [PATCH 65/78] fix: refuse sections too large for the .plt to reach
 the .got.plt instead of panicking

---
 src/elf.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 2807584..17061e6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -691,13 +691,21 @@ impl<'d> Writer<'d> {
         section.add_chunk(data.into());
     }
 
-    fn patch_plt_and_got_plt(&mut self) {
+    fn patch_plt_and_got_plt(&mut self) -> Result<(), String> {
         use byteorder::{LittleEndian, WriteBytesExt};
 
         let plt_address = self.plt_address();
         let got_plt_address = self.got_plt_address();
         let relative_got_plt = got_plt_address as i64 - plt_address as i64;
 
+        // the entries of both tables refer to each other relative to where they are
+        let reach = relative_got_plt.unsigned_abs()
+            + self.plt_section.read().sh_size
+            + self.got_plt_section.read().sh_size;
+        if reach > i32::MAX as u64 {
+            return Err("the `.plt` and `.got.plt` sections are too far apart".into());
+        }
+
         // first we patch the header to point to the correct `.got.plt` entries
         let mut section = self.plt_section.write();
         let plt_entry_chunk = section.chunk_mut(0);
@@ -764,6 +772,7 @@ impl<'d> Writer<'d> {
                 .write_i32::<LittleEndian>(plt0.try_into().unwrap())
                 .unwrap();
         }
+        Ok(())
     }
 
     fn handle_special_symbols(&mut self) {
@@ -979,7 +988,7 @@ impl<'d> Writer<'d> {
         }
     }
 
-    fn assign_section_addresses(&mut self) {
+    fn assign_section_addresses(&mut self) -> Result<(), String> {
         self.scan_relocations();
 
         self.resize_got_section();
@@ -1095,7 +1104,7 @@ impl<'d> Writer<'d> {
 
         self.add_dyn_entries();
 
-        self.patch_plt_and_got_plt();
+        self.patch_plt_and_got_plt()
     }
 
     fn handle_relocations(&mut self) -> Result<(), String> {
@@ -1167,7 +1176,7 @@ impl<'d> Writer<'d> {
     // section header 2
     // ...
     pub fn compute_sections(&mut self) -> Result<(), String> {
-        self.assign_section_addresses();
+        self.assign_section_addresses()?;
 
         self.handle_special_symbols();
 
-- 
2.43.0


From 36a44c658ca0c1ced0833afc33e2548b52b0a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:09 +0000
Subject: [PATCH 66/78] fix: a global symbol without a name took the place of
 the null symbol

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 464d816..c96c6aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,9 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let e = format!("{} is defined in a section that doesn't exist.", name);
                 return Err(e).map_path_err(path);
             }
+            if name.is_empty() && symbol.st_bind() != STB_LOCAL {
+                return Err("A global symbol has no name.".to_string()).map_path_err(path);
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
-- 
2.43.0


From d0de12a8afacd9438fd51a4781fbde29caee7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:18 +0000
Subject: [PATCH 67/78] fix: the resolver of an indirect function was taken for
 the function

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c96c6aa..a9afc16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,7 +16,7 @@ use goblin::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL,
             SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{STB_LOCAL, STT_OBJECT},
+        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT},
     },
 };
 use std::{
@@ -109,6 +109,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let e = format!("{} is defined in a section that doesn't exist.", name);
                 return Err(e).map_path_err(path);
             }
+            if symbol.st_type() == STT_GNU_IFUNC && symbol.st_shndx != SHN_UNDEF as usize {
+                let e = format!("{} is an indirect function, which isn't supported.", name);
+                return Err(e).map_path_err(path);
+            }
             if name.is_empty() && symbol.st_bind() != STB_LOCAL {
                 return Err("A global symbol has no name.".to_string()).map_path_err(path);
             }
-- 
2.43.0


From f36b3c277b4314adf5987f79351b3ebf86ad410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:19 +0000
Subject: [PATCH 68/78] fix: local symbols of a shared library were taken for
 its definitions

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a9afc16..3f52be4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -190,8 +190,11 @@ impl Linker {
                 } else {
                     continue;
                 };
-                // what the library itself only references doesn't define anything
-                for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != SHN_UNDEF as usize) {
+                // what the library itself only references doesn't define anything, nor do its
+                // local symbols
+                let is_exported =
+                    |s: &Sym| s.st_shndx != SHN_UNDEF as usize && s.st_bind() != STB_LOCAL;
+                for sym in elf.dynsyms.iter().filter(is_exported) {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         entry.1 = true;
@@ -200,6 +203,7 @@ impl Linker {
                         let is_alias = |s: &Sym| {
                             sym.st_type() == STT_OBJECT
                                 && s.st_type() == STT_OBJECT
+                                && s.st_bind() != STB_LOCAL
                                 && (s.st_shndx, s.st_value) == (sym.st_shndx, sym.st_value)
                         };
                         for alias in elf.dynsyms.iter().filter(is_alias) {
-- 
2.43.0


From 19ab19182a97eb7a08f1eac7853b801cd2421009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:10:47 +0000
Subject: [PATCH 69/78] fix: a shared library's definition was taken for
 references of hidden visibility

---
 src/elf.rs              |  8 +++++++-
 src/elf/symbol_table.rs |  5 +++++
 src/lib.rs              |  3 +++
 src/symbol.rs           | 19 ++++++++++++++++++-
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 17061e6..f4a458d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -519,7 +519,8 @@ impl<'d> Writer<'d> {
                 }
             }
         }
-        if added != Added::Ignored && elf_sym.st_shndx != SHN_UNDEF as u16 {
+        let is_ours = added != Added::Ignored && elf_sym.st_shndx != SHN_UNDEF as u16;
+        if is_ours || !self.is_visible(r) {
             // our own definition takes precedence over one that was found in a shared library
             let imported = as_mut_sym_tab(&self.sym_section).get_mut(r).unwrap().take_dynamic();
             if let Some(dyn_ref) = imported {
@@ -608,6 +609,11 @@ impl<'d> Writer<'d> {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_weak())
     }
 
+    /// Whether a shared library may define the symbol.
+    pub fn is_visible(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(true, |s| s.is_visible())
+    }
+
     pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
         let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 20aee2e..f6d9c8e 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -113,6 +113,10 @@ impl<'p> SymbolTable<'p> {
                 - 1;
             return Ok((SymbolRef::Section(elf_sym.st_shndx, len), added));
         }
+        let visibility = match self.symbols.get(&st_name) {
+            Some(sym) => sym.visibility_with(&new_sym),
+            None => new_sym.st_other,
+        };
         // the null symbol is the only local one that all objects share
         if new_sym.is_local() && (st_name != 0 || !new_sym.is_undefined()) {
             self.num_locals += 1;
@@ -155,6 +159,7 @@ impl<'p> SymbolTable<'p> {
                 } else {
                     added = Added::Ignored;
                 }
+                old_sym.st_other = visibility;
             }
             Entry::Vacant(v) => {
                 if new_sym.is_local() {
diff --git a/src/lib.rs b/src/lib.rs
index 3f52be4..5896174 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -185,6 +185,9 @@ impl Linker {
             let data = read(path).map_path_err(path)?;
             let elf = parse_elf(&data, ET_DYN).map_path_err(path)?;
             for entry in undefines.iter_mut().filter(|(_, v)| !*v) {
+                if !writer.is_visible(entry.0) {
+                    continue;
+                }
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
                 } else {
diff --git a/src/symbol.rs b/src/symbol.rs
index 5b5cf7f..63a047c 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -7,7 +7,7 @@ use std::{
 
 use goblin::elf64::{
     section_header::SHN_UNDEF,
-    sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
+    sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS, STV_DEFAULT},
 };
 
 #[derive(Debug, Clone, Copy)]
@@ -75,6 +75,23 @@ impl<'r> Symbol<'r> {
         self.st_bind() == STB_LOCAL
     }
 
+    pub const fn visibility(&self) -> u8 {
+        self.sym.st_other & 3
+    }
+
+    /// Whether a shared library may define the symbol.
+    pub const fn is_visible(&self) -> bool {
+        self.visibility() == STV_DEFAULT
+    }
+
+    /// The more constraining of two visibilities, which is the one of the symbol.
+    pub fn visibility_with(&self, other: &Self) -> u8 {
+        match (self.visibility(), other.visibility()) {
+            (STV_DEFAULT, v) | (v, STV_DEFAULT) => v,
+            (a, b) => a.min(b),
+        }
+    }
+
     pub const fn is_undefined(&self) -> bool {
         self.sym.st_shndx == SHN_UNDEF as u16
     }
-- 
2.43.0


From 50be9bd386c6c26d6c7694592ff4bc64c0f26ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:41 +0000
Subject: [PATCH 70/78] fix: visibility of a library's definition became that
 of the program's reference

---
 src/elf.rs       | 15 +++++++++++----
 src/elf/chunk.rs | 20 +++++++++++++++++++-
 src/lib.rs       |  3 ++-
 src/symbol.rs    | 15 ++++++++++++++-
 4 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index f4a458d..ce8e9d7 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -12,7 +12,7 @@ use goblin::elf64::{
         SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
         SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::Sym,
+    sym::{Sym, STV_PROTECTED},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -544,6 +544,8 @@ impl<'d> Writer<'d> {
     ) -> Result<Option<SymbolRef>, ErrorType> {
         elf_sym.st_shndx = SHN_UNDEF as u16;
         let lib_value = std::mem::take(&mut elf_sym.st_value);
+        // it's the visibility of the definition, not of the reference
+        let visibility = std::mem::take(&mut elf_sym.st_other) & 3;
         let r = Self::add_symbol_inner(
             elf_sym,
             name,
@@ -553,7 +555,11 @@ impl<'d> Writer<'d> {
         );
         if let Ok((dyn_ref, Added::Taken)) = r {
             let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
-            dyn_symbols.get_mut(dyn_ref).unwrap().set_lib_value(lib_value);
+            let symbol = dyn_symbols.get_mut(dyn_ref).unwrap();
+            symbol.set_lib_value(lib_value);
+            if visibility == STV_PROTECTED {
+                symbol.set_protected();
+            }
         }
         let r = r.map(|(r, _)| r);
         if let Ok(dyn_ref) = r {
@@ -913,8 +919,9 @@ impl<'d> Writer<'d> {
             for chunk in section.write().chunks_mut() {
                 let mut symbols = as_mut_sym_tab(&self.sym_section);
                 let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
-                let is_function =
-                    |d| dyn_symbols.get(d).map_or(false, |s| !s.is_object() && !s.is_tls());
+                let is_data =
+                    |s: &Symbol<'_>| s.is_object() || s.is_protected_object() || s.is_tls();
+                let is_function = |d| dyn_symbols.get(d).map_or(false, |s| !is_data(s));
                 for (reloc, sym_ref) in chunk.relocations_mut() {
                     let r_type = reloc.r_info as u32;
                     match r_type as u32 {
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index b279101..af46fba 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -142,7 +142,13 @@ fn apply_relocation(
     // `stderr` is an object, we will know its address at runtime because
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i128 = match symbol.dynamic() {
-        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym)?.st_value.into(),
+        Some(dyn_sym) if symbol.is_undefined() => {
+            let sym = dyn_table.get(dyn_sym)?;
+            if sym.is_protected_object() && needs_address(rel.r_info as u32) {
+                return None;
+            }
+            sym.st_value.into()
+        }
         // absolute symbols might be negative
         _ => (symbol.st_value as i64).into(),
     };
@@ -274,3 +280,15 @@ fn apply_relocation(
     }
     Some(())
 }
+
+/// Whether the relocated field depends on the address of the symbol itself.
+fn needs_address(r_type: u32) -> bool {
+    !matches!(
+        r_type,
+        R_X86_64_NONE
+            | R_X86_64_GOT32
+            | R_X86_64_GOTPCREL
+            | R_X86_64_GOTPCRELX
+            | R_X86_64_REX_GOTPCRELX
+    )
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5896174..2a2d1f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,7 +16,7 @@ use goblin::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL,
             SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT},
+        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STV_PROTECTED},
     },
 };
 use std::{
@@ -207,6 +207,7 @@ impl Linker {
                             sym.st_type() == STT_OBJECT
                                 && s.st_type() == STT_OBJECT
                                 && s.st_bind() != STB_LOCAL
+                                && s.st_visibility() != STV_PROTECTED
                                 && (s.st_shndx, s.st_value) == (sym.st_shndx, sym.st_value)
                         };
                         for alias in elf.dynsyms.iter().filter(is_alias) {
diff --git a/src/symbol.rs b/src/symbol.rs
index 63a047c..0d048d2 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -25,6 +25,8 @@ pub struct Symbol<'r> {
     dynamic: Option<SymbolRef>,
     // the value that the library gives the symbol
     lib_value: u64,
+    // whether the library always uses its own definition
+    protected: bool,
     // whether our PLT entry is the symbol's address for the whole program
     canonical_plt: bool,
 }
@@ -43,6 +45,7 @@ impl<'r> Symbol<'r> {
             relocation_offset: None,
             dynamic: None,
             lib_value: 0,
+            protected: false,
             canonical_plt: false,
         }
     }
@@ -68,7 +71,7 @@ impl<'r> Symbol<'r> {
     }
 
     pub const fn is_object(&self) -> bool {
-        self.st_type() == STT_OBJECT
+        self.st_type() == STT_OBJECT && !self.protected
     }
 
     pub const fn is_local(&self) -> bool {
@@ -173,6 +176,16 @@ impl<'r> Symbol<'r> {
         self.lib_value = value;
     }
 
+    pub fn set_protected(&mut self) {
+        self.protected = true;
+    }
+
+    /// Whether a library has an object that can't be copied, as the library itself wouldn't
+    /// use the copy.
+    pub const fn is_protected_object(&self) -> bool {
+        self.st_type() == STT_OBJECT && self.protected
+    }
+
     pub const fn has_canonical_plt(&self) -> bool {
         self.canonical_plt
     }
-- 
2.43.0


From 331119563c25124a27b63cba8aded15346c464a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:36:38 +0000
Subject: [PATCH 71/78] fix: an alias of a copied object took the place of
 another library's definition

The loader takes the definition of the first library that has one, so only those other names of a
copied object belong to the copy that the loader would resolve to the object.
---
 src/elf.rs | 41 +++++++++++++-----------------------
 src/lib.rs | 61 ++++++++++++++++++++++++++++++++++++++----------------
 2 files changed, 57 insertions(+), 45 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ce8e9d7..da888aa 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -148,8 +148,6 @@ pub enum DynTag {
 pub struct Writer<'d> {
     out: &'d Path,
     eh: Header,
-    // other names of imported objects
-    aliases: Vec<SymbolRef>,
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
@@ -358,7 +356,6 @@ impl<'d> Writer<'d> {
         Ok(Self {
             out,
             eh,
-            aliases: vec![],
             dyn_rels: vec![],
             plt_rels: vec![],
             own_sections: sections.len(),
@@ -576,6 +573,19 @@ impl<'d> Writer<'d> {
         r.map(Some)
     }
 
+    /// Whether the symbol is imported as an object of the library, which is copied.
+    pub fn imports_object(&self, lib: &Path, name: &str) -> bool {
+        let symbol = as_str_tab(&self.sym_str_section)
+            .get(name.to_string())
+            .map(|e| SymbolRef::Named(e.offset as u32));
+        let symbols = as_sym_tab(&self.sym_section);
+        let import = symbol.and_then(|r| symbols.get(r)).and_then(|s| s.dynamic());
+        let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        import
+            .and_then(|d| dyn_symbols.get(d))
+            .map_or(false, |s| s.is_object() && s.reference() == lib)
+    }
+
     /// Adds another name of an object that is imported from the library, which has to find
     /// the copy by all of them.
     pub fn add_alias(
@@ -596,9 +606,7 @@ impl<'d> Writer<'d> {
         if ours.map_or(false, is_ours) || dyn_names.map_or(false, is_imported) {
             return Ok(());
         }
-        let alias = self.add_dyn_symbol(elf_sym, name, reference)?;
-        self.aliases.extend(alias);
-        Ok(())
+        self.add_dyn_symbol(elf_sym, name, reference).map(|_| ())
     }
 
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
@@ -982,33 +990,12 @@ impl<'d> Writer<'d> {
         }
     }
 
-    /// Removes the aliases of objects that turned out not to be imported.
-    fn remove_unused_aliases(&mut self) {
-        let symbols = as_sym_tab(&self.sym_section);
-        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
-        let imports = symbols.iter().filter_map(|s| s.dynamic()).collect::<HashSet<_>>();
-        let objects = imports
-            .iter()
-            .map(|d| &dyn_symbols[*d])
-            .filter(|s| s.is_object())
-            .map(|s| (s.reference().to_owned(), s.lib_value()))
-            .collect::<HashSet<_>>();
-        for alias in self.aliases.iter().filter(|a| !imports.contains(a)) {
-            let sym = &dyn_symbols[*alias];
-            if !objects.contains(&(sym.reference().to_owned(), sym.lib_value())) {
-                dyn_symbols.remove(*alias);
-            }
-        }
-    }
-
     fn assign_section_addresses(&mut self) -> Result<(), String> {
         self.scan_relocations();
 
         self.resize_got_section();
         self.resize_got_plt_section();
 
-        self.remove_unused_aliases();
-
         // XXX: this needs to be done out of band...
         self.dyn_sym_section.write().expand();
         let dyn_syms = as_sym_tab(&self.dyn_sym_section);
diff --git a/src/lib.rs b/src/lib.rs
index 2a2d1f2..06ed292 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,7 +20,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::read,
     path::{Path, PathBuf},
 };
@@ -193,28 +193,11 @@ impl Linker {
                 } else {
                     continue;
                 };
-                // what the library itself only references doesn't define anything, nor do its
-                // local symbols
-                let is_exported =
-                    |s: &Sym| s.st_shndx != SHN_UNDEF as usize && s.st_bind() != STB_LOCAL;
                 for sym in elf.dynsyms.iter().filter(is_exported) {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         entry.1 = true;
                         writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
-                        // the library might use the object by another name
-                        let is_alias = |s: &Sym| {
-                            sym.st_type() == STT_OBJECT
-                                && s.st_type() == STT_OBJECT
-                                && s.st_bind() != STB_LOCAL
-                                && s.st_visibility() != STV_PROTECTED
-                                && (s.st_shndx, s.st_value) == (sym.st_shndx, sym.st_value)
-                        };
-                        for alias in elf.dynsyms.iter().filter(is_alias) {
-                            let name =
-                                get_dyn_symbol_name(&elf, alias.st_name).map_path_err(path)?;
-                            writer.add_alias(alias.into(), name, path).map_path_err(path)?;
-                        }
                     }
                 }
             }
@@ -287,6 +270,41 @@ impl Linker {
         Ok(())
     }
 
+    /// Adds the other names by which the libraries use the objects that are copied, if they mean
+    /// these objects: the loader takes the definition of the first library that has one.
+    fn add_aliases<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
+        let mut found = HashSet::new();
+        for (lib, as_needed) in &self.options.shared_libs {
+            let path = lib.as_path();
+            if !as_needed || writer.imports_from(path) {
+                let data = read(path).map_path_err(path)?;
+                let elf = parse_elf(&data, ET_DYN).map_path_err(path)?;
+                let mut symbols = vec![];
+                for sym in elf.dynsyms.iter().filter(is_exported) {
+                    let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
+                    if found.insert(name.to_string()) {
+                        symbols.push((sym, name));
+                    }
+                }
+                let place = |s: &Sym| (s.st_shndx, s.st_value);
+                let copied = symbols
+                    .iter()
+                    .filter(|(_, name)| writer.imports_object(path, name))
+                    .map(|(sym, _)| place(sym))
+                    .collect::<HashSet<_>>();
+                let is_alias = |s: &Sym| {
+                    s.st_type() == STT_OBJECT
+                        && s.st_visibility() != STV_PROTECTED
+                        && copied.contains(&place(s))
+                };
+                for (sym, name) in symbols.iter().filter(|(sym, _)| is_alias(sym)) {
+                    writer.add_alias((*sym).into(), name, path).map_path_err(path)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn link(&self) -> Result<(), Error<'_>> {
         let mut writer =
             elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;
@@ -322,6 +340,7 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        self.add_aliases(&mut writer)?;
         self.add_needed_libs(&mut writer)?;
         writer.compute_sections().map_path_err(self.options.output.as_path())?;
         let mut undefined = writer.undefined_symbols();
@@ -357,6 +376,12 @@ fn parse_elf(data: &[u8], e_type: u16) -> Result<Elf<'_>, ErrorType> {
     Ok(elf)
 }
 
+/// Whether a symbol of a shared library is a definition for others. What the library itself only
+/// references doesn't define anything, nor do its local symbols.
+fn is_exported(sym: &Sym) -> bool {
+    sym.st_shndx != SHN_UNDEF as usize && sym.st_bind() != STB_LOCAL
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 8358ecc0139c3c75c538a725f9ae2ccba7a7b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:42:34 +0000
Subject: [PATCH 72/78] fix: shared libraries didn't find the program's
 definitions that they refer to

The loader looks only into the dynamic symbols of the program. What a needed library refers
to, or defines as well, has to be among them.
---
 src/elf.rs    | 39 +++++++++++++++++++++++++++++++++++++++
 src/lib.rs    | 24 ++++++++++++++++++++++++
 src/symbol.rs | 20 ++++++++++++++++++--
 3 files changed, 81 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index da888aa..9b57cd6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -609,6 +609,31 @@ impl<'d> Writer<'d> {
         self.add_dyn_symbol(elf_sym, name, reference).map(|_| ())
     }
 
+    /// Makes our definition of the symbol, if there is one, known to the libraries.
+    pub fn add_export(&mut self, name: &str) -> Result<(), ErrorType> {
+        let definition = match as_str_tab(&self.sym_str_section).get(name.to_string()) {
+            Some(e) => SymbolRef::Named(e.offset as u32),
+            None => return Ok(()),
+        };
+        let elf_sym = match as_sym_tab(&self.sym_section).get(definition) {
+            Some(s) if !s.is_undefined() && s.is_exportable() => s.sym,
+            _ => return Ok(()),
+        };
+        let out = self.out;
+        let (dyn_ref, added) = Self::add_symbol_inner(
+            elf_sym,
+            name,
+            out,
+            self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
+            self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+        )?;
+        if added == Added::Taken {
+            let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+            dyn_symbols.get_mut(dyn_ref).unwrap().set_exports(definition);
+        }
+        Ok(())
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -1167,6 +1192,18 @@ impl<'d> Writer<'d> {
         Ok(())
     }
 
+    /// Gives the exported symbols the places of their definitions.
+    fn place_exports(&mut self) {
+        let symbols = as_sym_tab(&self.sym_section);
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+        for export in dyn_symbols.iter_mut() {
+            if let Some(definition) = export.exports().and_then(|r| symbols.get(r)) {
+                export.st_value = definition.st_value;
+                export.st_shndx = definition.st_shndx;
+            }
+        }
+    }
+
     // elf header
     // program header 1
     // program header 2
@@ -1182,6 +1219,8 @@ impl<'d> Writer<'d> {
 
         self.handle_relocations()?;
 
+        self.place_exports();
+
         self.compute_tables();
 
         if let Some(entry) =
diff --git a/src/lib.rs b/src/lib.rs
index 06ed292..a1566c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -305,6 +305,29 @@ impl Linker {
         Ok(())
     }
 
+    /// Exports our definitions of the symbols that the libraries refer to or define as well.
+    fn add_exports<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
+        let mut found = HashSet::new();
+        for (lib, as_needed) in &self.options.shared_libs {
+            let path = lib.as_path();
+            if !as_needed || writer.imports_from(path) {
+                let data = read(path).map_path_err(path)?;
+                let elf = parse_elf(&data, ET_DYN).map_path_err(path)?;
+                let names = elf
+                    .dynsyms
+                    .iter()
+                    .filter(|sym| sym.st_bind() != STB_LOCAL)
+                    .filter_map(|sym| elf.dynstrtab.get_at(sym.st_name));
+                for name in names {
+                    if found.insert(name.to_string()) {
+                        writer.add_export(name).map_path_err(path)?;
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn link(&self) -> Result<(), Error<'_>> {
         let mut writer =
             elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;
@@ -341,6 +364,7 @@ impl Linker {
             }
         }
         self.add_aliases(&mut writer)?;
+        self.add_exports(&mut writer)?;
         self.add_needed_libs(&mut writer)?;
         writer.compute_sections().map_path_err(self.options.output.as_path())?;
         let mut undefined = writer.undefined_symbols();
diff --git a/src/symbol.rs b/src/symbol.rs
index 0d048d2..ab64bb2 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -7,7 +7,7 @@ use std::{
 
 use goblin::elf64::{
     section_header::SHN_UNDEF,
-    sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS, STV_DEFAULT},
+    sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS, STV_DEFAULT, STV_PROTECTED},
 };
 
 #[derive(Debug, Clone, Copy)]
@@ -29,6 +29,8 @@ pub struct Symbol<'r> {
     protected: bool,
     // whether our PLT entry is the symbol's address for the whole program
     canonical_plt: bool,
+    // our definition that the symbol makes known to the libraries
+    exports: Option<SymbolRef>,
 }
 
 impl<'r> Symbol<'r> {
@@ -47,6 +49,7 @@ impl<'r> Symbol<'r> {
             lib_value: 0,
             protected: false,
             canonical_plt: false,
+            exports: None,
         }
     }
 
@@ -71,7 +74,7 @@ impl<'r> Symbol<'r> {
     }
 
     pub const fn is_object(&self) -> bool {
-        self.st_type() == STT_OBJECT && !self.protected
+        self.st_type() == STT_OBJECT && !self.protected && self.exports.is_none()
     }
 
     pub const fn is_local(&self) -> bool {
@@ -87,6 +90,11 @@ impl<'r> Symbol<'r> {
         self.visibility() == STV_DEFAULT
     }
 
+    /// Whether a shared library may refer to the symbol.
+    pub const fn is_exportable(&self) -> bool {
+        matches!(self.visibility(), STV_DEFAULT | STV_PROTECTED)
+    }
+
     /// The more constraining of two visibilities, which is the one of the symbol.
     pub fn visibility_with(&self, other: &Self) -> u8 {
         match (self.visibility(), other.visibility()) {
@@ -186,6 +194,14 @@ impl<'r> Symbol<'r> {
         self.st_type() == STT_OBJECT && self.protected
     }
 
+    pub const fn exports(&self) -> Option<SymbolRef> {
+        self.exports
+    }
+
+    pub fn set_exports(&mut self, definition: SymbolRef) {
+        self.exports = Some(definition);
+    }
+
     pub const fn has_canonical_plt(&self) -> bool {
         self.canonical_plt
     }
-- 
2.43.0


From 728663cc428576ac8064660b16e125ec2e3a4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:57:26 +0000
Subject: [PATCH 73/78] fix: program header entry wasn't where a first section
 of large alignment puts it

---
 src/elf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 9b57cd6..20036b1 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1236,6 +1236,11 @@ impl<'d> Writer<'d> {
         self.eh.e_shstrndx = self.shstr_section.read().index() as u16;
         self.eh.e_shoff = self.file_offset;
 
+        // the first section might be aligned to more than the start of the program is
+        if let Some(ph) = self.program_headers.iter().find(|ph| ph.p_type == PT_LOAD) {
+            self.start_p_vaddr = ph.p_vaddr;
+        }
+
         // patch the PHDR program header now that we have computed everything
         let ph = &mut self.program_headers[0];
         ph.p_offset = self.eh.e_phoff;
-- 
2.43.0


From f37999956fdf4c2b34b316a36a6e5c542c534743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:01:05 +0000
Subject: [PATCH 74/78] fix: more program headers than can be loaded were a
 panic

---
 src/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 20036b1..71cd6bf 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1232,6 +1232,10 @@ impl<'d> Writer<'d> {
             }
         }
         self.eh.e_shnum = self.sections.len() as u16;
+        // programs with more of them than this can't be loaded
+        if self.program_headers.len() * self.eh.e_phentsize as usize > u16::MAX as usize {
+            return Err("Too many program headers.".into());
+        }
         self.eh.e_phnum = self.program_headers.len() as u16;
         self.eh.e_shstrndx = self.shstr_section.read().index() as u16;
         self.eh.e_shoff = self.file_offset;
-- 
2.43.0


From f9e16d80de20ea49a64bede3ecba96d65780e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:01:26 +0000
Subject: [PATCH 75/78] fix: more sections than the file header counts made an
 unusable program

---
 src/elf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 71cd6bf..557b3f2 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,8 +8,8 @@ use goblin::elf64::{
     },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_UNDEF,
-        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS,
+        SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
         SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{Sym, STV_PROTECTED},
@@ -414,6 +414,10 @@ impl<'d> Writer<'d> {
             None => Chunk::zeroed(sh.sh_size),
         };
         let (section, chunk) = if entry.new {
+            // the null section and this one come on top
+            if self.sections.len() + 2 >= SHN_LORESERVE as usize {
+                return Err(ErrorType::Other("Too many sections.".into()));
+            }
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-- 
2.43.0


From ce3088419f62fca8d1e83333fc2dc1bb8211893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:31 +0000
Subject: [PATCH 76/78] fix: sections that are writable but not loaded were
 laid over the headers

---
 src/elf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 557b3f2..2dddf3f 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1585,7 +1585,9 @@ fn post_inc(v: &mut u64, inc: u64) -> u64 {
 fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
-    match s1.sh_flags.cmp(&s2.sh_flags) {
+    // what isn't loaded comes after the program, its flags whatever they are
+    let order = |s: &SectionHeader| (s.sh_flags as u32 & SHF_ALLOC == 0, s.sh_flags);
+    match order(&s1).cmp(&order(&s2)) {
         // what takes no space in the file comes last in its segment
         Ordering::Equal => (s1.sh_type == SHT_NOBITS)
             .cmp(&(s2.sh_type == SHT_NOBITS))
-- 
2.43.0


From dc2d3e29e1fa09a5e94feb4faeaa46e6d9f94503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:23:51 +0000
Subject: [PATCH 77/78] fix: compressed sections were joined and relocated as
 if they were plain

---
 src/elf.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 2dddf3f..495097b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,9 +8,9 @@ use goblin::elf64::{
     },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS,
-        SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
-        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_COMPRESSED, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS,
+        SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH,
+        SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{Sym, STV_PROTECTED},
 };
@@ -404,6 +404,10 @@ impl<'d> Writer<'d> {
             let e = format!("Size {} of section {} isn't supported.", sh.sh_size, &*name);
             return Err(ErrorType::Other(e));
         }
+        if sh.sh_flags & SHF_COMPRESSED as u64 != 0 {
+            let e = format!("Section {} is compressed, which isn't supported.", &*name);
+            return Err(ErrorType::Other(e));
+        }
         if self.is_own_section(&name) {
             return Err(ErrorType::Other(format!("Section {} is made by the linker.", &*name)));
         }
-- 
2.43.0


From bcfa6e8f9a6df03269592f665043f0e6743492f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:24:04 +0000
Subject: [PATCH 78/78] fix: a part with thread-local variables did not make
 its section thread-local

---
 src/elf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 495097b..6151649 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -448,8 +448,9 @@ impl<'d> Writer<'d> {
             }
             section.sh_size += padding + sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            // a part that is written to or executed makes the whole section so
-            section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
+            // a part that is written to, executed or thread-local makes the whole section so
+            section.sh_flags |=
+                sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR | SHF_TLS) as u64;
             let chunk = section.add_chunk(new_chunk);
             // the file holds either all or nothing of a section
             if section.sh_type == SHT_NOBITS && sh.sh_type != SHT_NOBITS {
-- 
2.43.0

