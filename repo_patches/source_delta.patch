From 44b6c3cf20a0b5e7dce3dbdbe2344055c5bbd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:48 +0000
Subject: [PATCH 01/66] fix: keep the local symbols of each object apart

Local symbols with the same name were merged into one symbol table entry, so
relocations against a local symbol could use the symbol of another object. The
symbol of a relocation is now found by its index, not by comparing attributes
which two symbols of the same object can share.
---
 src/elf.rs              | 12 +++++++++---
 src/elf/symbol_table.rs | 21 +++++++++++++++++----
 src/lib.rs              | 37 ++++++-------------------------------
 3 files changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f4416c..b4f3332 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -687,7 +687,9 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__init_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
+                    if let Some(symbol) = symbols.get_mut(sym_ref) {
+                        symbol.st_value = section.size_on_disk();
+                    }
                     let chunk_index = section.last_chunk_index();
                     section.chunk_mut(chunk_index).add_symbol(sym_ref);
                 }
@@ -698,7 +700,9 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__fini_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
+                    if let Some(symbol) = symbols.get_mut(sym_ref) {
+                        symbol.st_value = section.size_on_disk();
+                    }
                     let chunk_index = section.last_chunk_index();
                     section.chunk_mut(chunk_index).add_symbol(sym_ref);
                 }
@@ -931,7 +935,9 @@ impl<'d> Writer<'d> {
             self.sym_str_section.read().inner::<StringTable>().unwrap().get("_start")
         {
             let symbols = as_sym_tab(&self.sym_section);
-            self.eh.e_entry = symbols[SymbolRef::Named(entry.offset as u32)].st_value;
+            if let Some(start) = symbols.get(SymbolRef::Named(entry.offset as u32)) {
+                self.eh.e_entry = start.st_value;
+            }
         }
         self.eh.e_shnum = self.sections.len() as u16;
         self.eh.e_phnum = self.program_headers.len() as u16;
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9cee311..d55ed35 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -24,6 +24,8 @@ pub enum SymbolRef {
     Named(u32),
     // section + number
     Section(u16, usize),
+    // a local symbol, which is never visible to other objects
+    Local(usize),
 }
 
 impl SymbolRef {
@@ -31,7 +33,7 @@ impl SymbolRef {
         if let Self::Named(n) = self {
             *n
         } else {
-            // SECTION symbols don't have a name
+            // SECTION symbols don't have a name, and locals cannot be found by name
             0
         }
     }
@@ -47,6 +49,7 @@ pub enum Error {
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
+    locals: Vec<Symbol<'p>>,
     num_locals: usize,
     is_dynamic: bool,
 }
@@ -56,6 +59,7 @@ impl Default for SymbolTable<'_> {
         let mut table = Self {
             symbols: Default::default(),
             section_syms: Default::default(),
+            locals: Default::default(),
             num_locals: 0,
             is_dynamic: false,
         };
@@ -96,6 +100,12 @@ impl<'p> SymbolTable<'p> {
                 - 1;
             return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
         }
+        // only the null symbol is not specific to an object
+        if new_sym.is_local() && elf_sym != Sym::default() {
+            self.num_locals += 1;
+            self.locals.push(new_sym);
+            return Ok(SymbolRef::Local(self.locals.len() - 1));
+        }
         match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
@@ -136,6 +146,7 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
             SymbolRef::Section(s, i) => self.section_syms.get(&s).map(|s| &s[i]),
+            SymbolRef::Local(i) => self.locals.get(i),
         }
     }
 
@@ -143,17 +154,18 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get_mut(&n),
             SymbolRef::Section(s, i) => self.section_syms.get_mut(&s).map(|s| &mut s[i]),
+            SymbolRef::Local(i) => self.locals.get_mut(i),
         }
     }
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
-        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
+        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().chain(&self.locals).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
+        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().chain(&mut self.locals).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
@@ -167,7 +179,7 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn total_len(&self) -> usize {
-        self.symbols.len() * size_of::<Sym>()
+        (self.symbols.len() + self.locals.len()) * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -258,6 +270,7 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
         match index {
             SymbolRef::Named(n) => &self.symbols[&n],
             SymbolRef::Section(s, i) => &self.section_syms[&s][i],
+            SymbolRef::Local(i) => &self.locals[i],
         }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 7dbd032..8692b90 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::{sym::Sym, Elf},
+    elf::Elf,
     elf64::{
         reloc::Rela,
         section_header::{
@@ -19,37 +19,12 @@ use goblin::{
 use std::{
     collections::{HashMap, HashSet},
     fs::read,
-    hash::{Hash, Hasher},
     path::{Path, PathBuf},
 };
 
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
-struct Symbol(Sym);
-
-impl PartialEq for Symbol {
-    fn eq(&self, s2: &Self) -> bool {
-        self.0.st_name == s2.0.st_name
-            && self.0.st_info == s2.0.st_info
-            && self.0.st_other == s2.0.st_other
-            && self.0.st_shndx == s2.0.st_shndx
-            && self.0.st_size == s2.0.st_size
-    }
-}
-
-impl Eq for Symbol {}
-
-impl Hash for Symbol {
-    fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.st_name.hash(state);
-        self.0.st_info.hash(state);
-        self.0.st_other.hash(state);
-        self.0.st_shndx.hash(state);
-        self.0.st_size.hash(state);
-    }
-}
-
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -59,7 +34,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     input: &'i Input<'p, 'd>,
     elf: Elf<'e>,
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
-    symbols: HashMap<Symbol, elf::SymbolRef>,
+    /// The symbols of this object, by their index in its symbol table.
+    symbols: HashMap<usize, elf::SymbolRef>,
 }
 
 impl<'p, 'd> Input<'p, 'd> {
@@ -104,14 +80,14 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_symbols(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let path = &self.input.path;
         let elf = &self.elf;
-        for symbol in &elf.syms {
+        for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
             if let Some(sym) = symbol_ref {
-                self.symbols.insert(Symbol(symbol), sym);
+                self.symbols.insert(i, sym);
             }
         }
         Ok(())
@@ -121,13 +97,12 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
                 let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
                     sec.clone()
                 } else {
                     continue;
                 };
-                let symbol = if let Some(sym) = self.symbols.get(&Symbol(*symbol)) {
+                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
                     sym
                 } else {
                     continue;
-- 
2.43.0


From ce61f7ef493d5177c359c22b4bc0567acb844249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:37 +0000
Subject: [PATCH 02/66] fix: take a symbol's value from the definition that
 wins

A definition that followed a reference only set the section of the symbol, not
its value, size and type; a strong reference overwrote a weak definition; and a
definition that lost to another one still moved the symbol to its section.
---
 src/elf.rs              | 38 ++++++++++++++++++++------------------
 src/elf/chunk.rs        |  4 ++++
 src/elf/symbol_table.rs | 41 +++++++++++++++++++++++++++++++++--------
 src/lib.rs              |  2 +-
 4 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b4f3332..a772084 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -44,7 +44,7 @@ mod string_table;
 pub use string_table::StringTable;
 
 mod symbol_table;
-pub use symbol_table::{GnuHashTable, HashTable, SymbolRef, SymbolTable};
+pub use symbol_table::{GnuHashTable, HashTable, Outcome, SymbolRef, SymbolTable};
 
 use self::chunk::Chunk;
 
@@ -430,27 +430,20 @@ impl<'d> Writer<'d> {
 
     fn add_symbol_inner<'s>(
         mut elf_sym: Sym,
-        section: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
         symbol_names: &mut StringTable,
         symbols: &mut SymbolTable<'d>,
-    ) -> Result<SymbolRef, ErrorType> {
+    ) -> Result<(SymbolRef, Outcome), ErrorType> {
         let name: Name = name.to_string().into();
         let hash = name.elf_hash();
         let gnu_hash = name.elf_gnu_hash();
         let st_name = symbol_names.get_or_create(name.clone()).offset as u32;
         elf_sym.st_name = st_name;
         log::trace!("name: '{}' -> sym: {:?}", &name as &str, elf_sym);
-        let r = symbols
+        symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
-            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
-        if let Some(section_ref) = section {
-            if elf_sym.st_shndx != SHN_ABS as u16 {
-                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
-            }
-        }
-        Ok(r)
+            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))
     }
 
     pub fn add_symbol<'s>(
@@ -460,21 +453,30 @@ impl<'d> Writer<'d> {
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
-        Self::add_symbol_inner(
+        let (r, outcome) = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
-        )
-        .map(Some)
+        )?;
+        if outcome == Outcome::Replaced {
+            // the symbol is no longer relative to where its old definition was
+            for section in &self.sections {
+                section.write().chunks_mut().iter_mut().for_each(|c| c.remove_symbol(r));
+            }
+        }
+        if let Some(section_ref) = sec_ref {
+            if outcome != Outcome::Ignored && elf_sym.st_shndx != SHN_ABS as u16 {
+                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+            }
+        }
+        Ok(Some(r))
     }
 
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -482,12 +484,12 @@ impl<'d> Writer<'d> {
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
-        );
+        )
+        .map(|(dyn_ref, _)| dyn_ref);
         if let Ok(dyn_ref) = r {
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c0ab8c0..40fa35d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -24,6 +24,10 @@ impl Chunk {
         self.symbols.insert(sym_ref);
     }
 
+    pub fn remove_symbol(&mut self, sym_ref: SymbolRef) {
+        self.symbols.remove(&sym_ref);
+    }
+
     pub fn add_relocation(&mut self, reloc: Rela, sym_ref: SymbolRef) {
         self.relocations.push((reloc, sym_ref));
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index d55ed35..9a0fd39 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -39,6 +39,17 @@ impl SymbolRef {
     }
 }
 
+/// What happened to a symbol which was added to a symbol table.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Outcome {
+    /// There was no definition before.
+    Added,
+    /// The symbol takes the place of another definition.
+    Replaced,
+    /// The symbol was already in the table, and stays as it was.
+    Ignored,
+}
+
 #[derive(Debug, Error)]
 pub enum Error {
     #[error("symbol already defined in {0}")]
@@ -86,7 +97,7 @@ impl<'p> SymbolTable<'p> {
         hash: u32,
         gnu_hash: u32,
         reference: &'p Path,
-    ) -> Result<SymbolRef, Error> {
+    ) -> Result<(SymbolRef, Outcome), Error> {
         let st_name = elf_sym.st_name;
         let st_type = st_type(elf_sym.st_info);
         let new_sym = Symbol::new(elf_sym, hash, gnu_hash, reference);
@@ -98,15 +109,15 @@ impl<'p> SymbolTable<'p> {
                 .or_insert_with(|| vec![new_sym])
                 .len()
                 - 1;
-            return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
+            return Ok((SymbolRef::Section(elf_sym.st_shndx, len), Outcome::Added));
         }
         // only the null symbol is not specific to an object
         if new_sym.is_local() && elf_sym != Sym::default() {
             self.num_locals += 1;
             self.locals.push(new_sym);
-            return Ok(SymbolRef::Local(self.locals.len() - 1));
+            return Ok((SymbolRef::Local(self.locals.len() - 1), Outcome::Added));
         }
-        match self.symbols.entry(st_name) {
+        let outcome = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
                 // we found another definition of this global symbol
@@ -122,14 +133,27 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
-                if !old_sym.higher_bind_than(new_sym) {
+                // a definition always wins over a reference, the binding only matters
+                // between two definitions (or between two references)
+                let replace = match (old_sym.is_undefined(), new_sym.is_undefined()) {
+                    (true, false) => true,
+                    (false, true) => false,
+                    _ => !old_sym.higher_bind_than(new_sym),
+                };
+                if replace {
+                    let outcome = if old_sym.is_undefined() {
+                        Outcome::Added
+                    } else {
+                        Outcome::Replaced
+                    };
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
-                } else if old_sym.st_shndx == SHN_UNDEF as u16 {
-                    old_sym.st_shndx = new_sym.st_shndx;
+                    outcome
+                } else {
+                    Outcome::Ignored
                 }
             }
             Entry::Vacant(v) => {
@@ -137,9 +161,10 @@ impl<'p> SymbolTable<'p> {
                     self.num_locals += 1;
                 }
                 v.insert(new_sym);
+                Outcome::Added
             }
         };
-        Ok(SymbolRef::Named(st_name))
+        Ok((SymbolRef::Named(st_name), outcome))
     }
 
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
diff --git a/src/lib.rs b/src/lib.rs
index 8692b90..67bd86c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -148,7 +148,7 @@ impl Linker {
                     if name == inner_name {
                         *entry.1 = true;
                         writer
-                            .add_dyn_symbol(sym.into(), None, inner_name, path)
+                            .add_dyn_symbol(sym.into(), inner_name, path)
                             .map_path_err(path)?;
                         writer.add_needed(path.file_name().unwrap().to_str().unwrap());
                     }
-- 
2.43.0


From 11b9541ffcdf3d5cf3b939d6b4e54f3de0d37a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 03/66] fix: apply relocations to the section they are for

The section a relocation section applies to is in its sh_info, it does not have
to come right before it.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67bd86c..4d0ef8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,8 +96,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
+            // `sh_info` is the section to which the relocations apply
+            let target = elf.section_headers[*section_index].sh_info as usize;
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
+                let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
                     continue;
-- 
2.43.0


From f0a146ff7b7f1271c6a5314856243067decdcdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:03 +0000
Subject: [PATCH 04/66] fix: apply relocations which have no symbol

A relocation with symbol index 0 uses the value 0 for its symbol, it is not a
relocation to skip.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d0ef8c..1a6cdca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,7 +98,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         for (section_index, rels) in &elf.shdr_relocs {
             // `sh_info` is the section to which the relocations apply
             let target = elf.section_headers[*section_index].sh_info as usize;
-            for rel in rels.iter().filter(|r| r.r_sym != 0) {
+            for rel in rels.iter() {
                 let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
-- 
2.43.0


From ee709ba0e8abf2f77e3b735478c3df483b13c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:17 +0000
Subject: [PATCH 05/66] fix: give every object its own part of a NOBITS section

The .bss sections of all objects started at the same address, since the
contributions had no data and thus no size.
---
 src/elf.rs         | 20 ++++++++++++--------
 src/elf/chunk.rs   | 20 +++++++++++++++++++-
 src/elf/section.rs |  8 ++++----
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a772084..28d9e8d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_PROGBITS, SHT_RELA,
-        SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -386,6 +386,7 @@ impl<'d> Writer<'d> {
     ) -> SectionRef<'d> {
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+        let mut chunk = data.map(Chunk::from).unwrap_or_else(|| Chunk::nobits(sh.sh_size));
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -400,7 +401,7 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let sh = Section::builder(sh).with_chunk(data.unwrap_or_default()).build();
+            let sh = Section::builder(sh).with_chunk(chunk).build();
             self.sections.push(Arc::clone(&sh));
             (sh, 0)
         } else {
@@ -408,11 +409,14 @@ impl<'d> Writer<'d> {
             let mut section = self.sections[entry.index].write();
             section.sh_size += sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            let chunk = if let Some(data) = data {
-                section.add_chunk(Chunk::from(data))
-            } else {
-                section.last_chunk_index()
-            };
+            // a section is only NOBITS as long as none of its chunks have any data
+            if section.sh_type != SHT_NOBITS {
+                chunk.materialize();
+            } else if sh.sh_type != SHT_NOBITS {
+                section.sh_type = sh.sh_type;
+                section.chunks_mut().iter_mut().for_each(Chunk::materialize);
+            }
+            let chunk = section.add_chunk(chunk);
             (section_ptr, chunk)
         };
         SectionRef { section, chunk }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 40fa35d..6ce3e79 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -11,13 +11,31 @@ use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 pub struct Chunk {
     address: Option<u64>,
     data: Vec<u8>,
+    // number of zeroes after `data` which only take up space in memory
+    zeroes: u64,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
 }
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, symbols: Default::default(), relocations: vec![] }
+        Self { address: None, data, zeroes: 0, symbols: Default::default(), relocations: vec![] }
+    }
+
+    /// A chunk of a section which occupies no space in the file.
+    pub fn nobits(size: u64) -> Self {
+        Self { zeroes: size, ..Self::new(vec![]) }
+    }
+
+    /// Turns the zeroes of the chunk into data.
+    pub fn materialize(&mut self) {
+        self.data.resize(self.size() as usize, 0);
+        self.zeroes = 0;
+    }
+
+    /// The number of bytes the chunk takes up in memory.
+    pub fn size(&self) -> u64 {
+        self.data.len() as u64 + self.zeroes
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 87e0655..b81b475 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -47,8 +47,8 @@ impl<'p> SectionBuilder<'p> {
         self
     }
 
-    pub fn with_chunk(mut self, data: Vec<u8>) -> Self {
-        self.section.chunks.push(data.into());
+    pub fn with_chunk(mut self, chunk: Chunk) -> Self {
+        self.section.chunks.push(chunk);
         self
     }
 
@@ -196,7 +196,7 @@ impl<'p> Section<'p> {
         let mut base_addr = self.sh_addr;
         for chunk in &mut self.chunks {
             chunk.set_address(base_addr);
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
@@ -214,7 +214,7 @@ impl<'p> Section<'p> {
                     }
                 }
             }
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
-- 
2.43.0


From 36bfb44dc2c44833cc6b799efc00648121025bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:34 +0000
Subject: [PATCH 06/66] fix: put NOBITS sections at the end of their segment

A NOBITS section with a larger alignment than the sections with data in the
same segment was put before them, and their contents were then mapped at the
wrong addresses.
---
 src/elf.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 28d9e8d..0a930fe 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1233,7 +1233,14 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
     match s1.sh_flags.cmp(&s2.sh_flags) {
-        Ordering::Equal => s1.sh_addralign.cmp(&s2.sh_addralign).reverse(),
+        // what takes up no space in the file has to come after everything that does, otherwise
+        // the rest of the segment isn't where the file offsets say it is
+        Ordering::Equal => {
+            let nobits = |s: &SectionHeader| s.sh_type == SHT_NOBITS;
+            nobits(&s1)
+                .cmp(&nobits(&s2))
+                .then_with(|| s1.sh_addralign.cmp(&s2.sh_addralign).reverse())
+        }
         // no flags should come last
         o => {
             if s1.sh_flags == 0 {
-- 
2.43.0


From 7a3dd216a220c41cd8a4f37442993558d27dc392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:35 +0000
Subject: [PATCH 07/66] fix: give a section the access that any of its parts
 needs

When objects have sections of the same name with different flags, the flags of
the first one decided whether the memory is loaded, writable and executable.
---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 0a930fe..0ed1580 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -408,6 +408,8 @@ impl<'d> Writer<'d> {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
             section.sh_size += sh.sh_size;
+            let access = (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
+            section.sh_flags |= sh.sh_flags as u64 & access;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
             // a section is only NOBITS as long as none of its chunks have any data
             if section.sh_type != SHT_NOBITS {
-- 
2.43.0


From 9e4d0af7bc5b8d57e2371c50fab00beca4692cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:28 +0000
Subject: [PATCH 08/66] fix: honour the alignment of sections and of their
 parts

Neither the addresses of sections within a segment nor the contributions of
the objects to a section were aligned, so aligned data could be misaligned.
---
 src/elf.rs       | 39 ++++++++++++++++++++++++++++-----------
 src/elf/chunk.rs |  9 +++++++++
 src/lib.rs       |  9 +++++++++
 3 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0ed1580..209210e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -407,7 +407,6 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
-            section.sh_size += sh.sh_size;
             let access = (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
             section.sh_flags |= sh.sh_flags as u64 & access;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
@@ -418,6 +417,14 @@ impl<'d> Writer<'d> {
                 section.sh_type = sh.sh_type;
                 section.chunks_mut().iter_mut().for_each(Chunk::materialize);
             }
+            // the padding of code has to be executable, e.g. `.init` runs from one end to the other
+            let fill = if section.sh_flags as u32 & SHF_EXECINSTR != 0 { 0x90 } else { 0 };
+            let padding = round_to(section.sh_size, sh.sh_addralign) - section.sh_size;
+            let nobits = section.sh_type == SHT_NOBITS;
+            if let Some(last) = section.chunks_mut().last_mut() {
+                last.pad(padding, fill, nobits);
+            }
+            section.sh_size += padding + sh.sh_size;
             let chunk = section.add_chunk(chunk);
             (section_ptr, chunk)
         };
@@ -1036,7 +1043,6 @@ impl<'d> Writer<'d> {
         let mut flags = 0;
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
-            let old_p_vaddr = self.p_vaddr;
             let mut sh = sh.write();
             if sh.sh_flags != flags {
                 // push old program header
@@ -1053,17 +1059,25 @@ impl<'d> Writer<'d> {
                     &mut first_load_data,
                 );
                 if program_header.is_none() {
+                    self.file_offset = round_to(self.file_offset, sh.sh_addralign);
                     sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
                 }
                 flags = sh.sh_flags;
+            } else if let Some(ph) = program_header.as_mut() {
+                let padding = round_to(self.p_vaddr, sh.sh_addralign) - self.p_vaddr;
+                if sh.sh_type != SHT_NOBITS {
+                    self.file_offset += padding;
+                    ph.p_filesz += padding;
+                }
+                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
+                ph.p_filesz += sh.size_on_disk();
+                ph.p_memsz += padding + sh.sh_size;
+                self.p_vaddr += padding;
+                sh.set_address(self.p_vaddr);
+                self.p_vaddr += sh.sh_size;
             } else {
+                self.file_offset = round_to(self.file_offset, sh.sh_addralign);
                 sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
-                if let Some(ph) = program_header.as_mut() {
-                    ph.p_filesz += sh.size_on_disk();
-                    ph.p_memsz += sh.sh_size;
-                    sh.set_address(self.p_vaddr);
-                    self.p_vaddr += sh.sh_size;
-                }
             }
             let sh = WGuard::downgrade(sh);
             if let Some(p_type) =
@@ -1078,8 +1092,8 @@ impl<'d> Writer<'d> {
                         p_flags: PF_R | write,
                         p_align: sh.sh_addralign,
                         p_offset: sh.sh_offset,
-                        p_vaddr: old_p_vaddr,
-                        p_paddr: old_p_vaddr,
+                        p_vaddr: sh.sh_addr,
+                        p_paddr: sh.sh_addr,
                         p_filesz: sh.size_on_disk(),
                         p_memsz: sh.sh_size,
                     },
@@ -1138,7 +1152,10 @@ fn get_load_program_header(
         let extra_data = extra_data.take().unwrap_or_default();
         let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
         let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };
-        *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT);
+        let alignment = if first_load { PAGE_ALIGNMENT } else { PAGE_ALIGNMENT.max(sh.sh_addralign) };
+        *p_vaddr = round_to(*p_vaddr, alignment);
+        // the headers before the first section have to leave it aligned
+        let extra_data = round_to(*p_vaddr + extra_data, sh.sh_addralign) - *p_vaddr;
         sh.set_address(*p_vaddr + extra_data);
         *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);
         let sh_size_on_disk = sh.size_on_disk() + extra_data;
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 6ce3e79..d9af011 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -33,6 +33,15 @@ impl Chunk {
         self.zeroes = 0;
     }
 
+    /// Extends the chunk by `len` bytes of padding.
+    pub fn pad(&mut self, len: u64, fill: u8, nobits: bool) {
+        if nobits {
+            self.zeroes += len;
+        } else {
+            self.data.resize(self.data.len() + len as usize, fill);
+        }
+    }
+
     /// The number of bytes the chunk takes up in memory.
     pub fn size(&self) -> u64 {
         self.data.len() as u64 + self.zeroes
diff --git a/src/lib.rs b/src/lib.rs
index 1a6cdca..27966c2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,9 @@ use std::{
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
+/// More than anything that is useful, what's in between is written to the output.
+const MAX_ALIGNMENT: u64 = 1 << 28;
+
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -60,6 +63,12 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
+            if section.sh_addralign > MAX_ALIGNMENT
+                || (section.sh_addralign != 0 && !section.sh_addralign.is_power_of_two())
+            {
+                let msg = format!("{} has invalid alignment {}", name, section.sh_addralign);
+                return Err(Error::new(self.input.path, msg));
+            }
             let section_ref = writer.push_section(
                 name.to_owned(),
                 section,
-- 
2.43.0


From 9946198a747bad2d2e70343bb6be5ae9446883ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:54 +0000
Subject: [PATCH 09/66] fix: keep the symbols of a .gnu.hash bucket together

The chain of a bucket ends with the first symbol of another bucket, but the
dynamic symbols were sorted by their hash instead of their bucket. With more
than one bucket, lookups could miss symbols.
---
 src/elf/symbol_table.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9a0fd39..ec9871a 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -184,27 +184,34 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
+        let nbuckets = GnuHashTable::nbuckets(self.len());
         let mut syms: Vec<&Symbol<'p>> = self.symbols.values().chain(&self.locals).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
+        let nbuckets = GnuHashTable::nbuckets(self.len());
         let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().chain(&mut self.locals).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
     /// Useful for those cases where we need quick access to a symbol with a given
     /// st_name, and we want to know its index in the final symbol table.
     pub fn sorted_with_indexes(&mut self) -> HashMap<u32, (usize, &mut Symbol<'p>)> {
+        let nbuckets = GnuHashTable::nbuckets(self.len());
         let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms.into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
     }
 
+    fn len(&self) -> usize {
+        self.symbols.len() + self.locals.len()
+    }
+
     pub fn total_len(&self) -> usize {
-        (self.symbols.len() + self.locals.len()) * size_of::<Sym>()
+        self.len() * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -300,12 +307,16 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     }
 }
 
-// local before global, then compare by gnu hash
-fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
+// local before global, then compare by gnu hash bucket, since all symbols of a bucket
+// have to be next to each other
+fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
     let b1 = if s1.is_local() { 0 } else { 1 };
     let b2 = if s2.is_local() { 0 } else { 1 };
     match b1.cmp(&b2) {
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()),
+        Ordering::Equal => {
+            let key = |s: &Symbol| (s.gnu_hash() % nbuckets, s.gnu_hash());
+            key(s1).cmp(&key(s2))
+        }
         c => c,
     }
 }
@@ -405,6 +416,10 @@ impl GnuHashTable {
             + self.chains.len() * size_of::<u32>()
     }
 
+    fn nbuckets(num_symbols: usize) -> u32 {
+        num_symbols as u32 / 8 + 1
+    }
+
     pub fn add_symbols(&mut self, symbols: &[&Symbol]) {
         // should be 32 for elf32, but for now we only support 64 bit anyways
         let elfclass_bits: u32 = 64;
@@ -412,7 +427,7 @@ impl GnuHashTable {
         let bits = (symbols.len() as u32 - 1) * 12;
         let bloom_size = (bits / elfclass_bits).next_power_of_two();
         let bloom_shift = 26;
-        let nbuckets: u32 = symbols.len() as u32 / 8 + 1;
+        let nbuckets = Self::nbuckets(symbols.len());
         // we always skip the first null symbol. For now, since we don't have
         // any locals in `.dynsym`, we can set this to 1, since we skip 1 symbol only.
         let symbol_offset = 1;
-- 
2.43.0


From 1ca5ab462094c57bb4a69c124d91e5bd4746dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:17 +0000
Subject: [PATCH 10/66] fix: allow weak references to undefined symbols

The value of such a symbol is 0, it is no error if nothing defines it, and it
does not cause a member of an archive to be loaded.
---
 src/elf.rs | 4 ++++
 src/lib.rs | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 209210e..d4f30c1 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -529,6 +529,10 @@ impl<'d> Writer<'d> {
         }
     }
 
+    pub fn is_weak(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_weak())
+    }
+
     pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
         let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
diff --git a/src/lib.rs b/src/lib.rs
index 27966c2..d627583 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -182,7 +182,8 @@ impl Linker {
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
             let mut members = HashSet::new();
-            for entry in &mut undefines {
+            // a weak reference doesn't need a definition, so it isn't a reason to load a member
+            for entry in undefines.iter_mut().filter(|(s, _)| !writer.is_weak(**s)) {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
                     name
                 } else {
@@ -245,7 +246,8 @@ impl Linker {
             }
         }
         writer.compute_sections();
-        let undefined = writer.undefined_symbols();
+        let mut undefined = writer.undefined_symbols();
+        undefined.retain(|s| !writer.is_weak(*s));
         if !undefined.is_empty() {
             let names = undefined
                 .iter()
-- 
2.43.0


From 88b018d82cb9991aad203a0c2c925317a5b244d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:16 +0000
Subject: [PATCH 11/66] fix: do not take a library's own references for
 definitions

A symbol which a shared library has in its dynamic symbol table because it
needs the symbol from elsewhere does not define it.
---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d627583..95eee87 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,8 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
+            SHT_SYMTAB,
         },
     },
 };
@@ -154,7 +155,8 @@ impl Linker {
                 } else {
                     continue;
                 };
-                for sym in &elf.dynsyms {
+                // what the library itself needs from elsewhere is no definition
+                for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != SHN_UNDEF as usize) {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         *entry.1 = true;
-- 
2.43.0


From 0559fcf9150154aac13bf85c56308cc8a337ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:54 +0000
Subject: [PATCH 12/66] fix: resolve the address of an imported function

Relocations other than calls against a function of a shared library used the
address 0. As is usual for executables, its address is the one of its PLT entry,
which the dynamic symbol has to carry so that libraries agree on it.
---
 src/elf.rs    | 27 ++++++++++++++++++++++++---
 src/symbol.rs | 11 +++++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index d4f30c1..8e517cd 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -728,6 +728,17 @@ impl<'d> Writer<'d> {
             }
         }
 
+        // functions whose address we use have to have that address everywhere
+        let plt_address = self.plt_address();
+        for sym in as_sym_tab(&self.sym_section).named().values().filter(|s| s.is_address_taken())
+        {
+            let address = plt_entry_addr(plt_address, sym.plt_index().unwrap()) as u64;
+            as_mut_sym_tab(&self.dyn_sym_section)
+                .get_mut(sym.dynamic().unwrap())
+                .unwrap()
+                .st_value = address;
+        }
+
         // handle dynamic object symbols
         let copy_rel = self.copy_rel_section.read();
         as_mut_sym_tab(&self.dyn_sym_section)
@@ -802,9 +813,19 @@ impl<'d> Writer<'d> {
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
                             }
                         }
-                        R_X86_64_PLT32 => {
+                        R_X86_64_PLT32 | R_X86_64_64 | R_X86_64_32 | R_X86_64_32S
+                        | R_X86_64_PC32 => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
-                            if sym.dynamic().is_some() {
+                            if let Some(dyn_sym) = sym.dynamic() {
+                                if r_type != R_X86_64_PLT32 {
+                                    let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+                                    let dyn_sym = &dyn_symbols[dyn_sym];
+                                    if dyn_sym.is_object() || dyn_sym.is_tls() {
+                                        continue;
+                                    }
+                                    // the address of the function is the one of its PLT entry
+                                    sym.set_address_taken();
+                                }
                                 let len = self.got_plt.len() + 3;
                                 let offset =
                                     *self.got_plt.entry(*sym_ref).or_insert(len * size_of::<u64>());
@@ -816,7 +837,7 @@ impl<'d> Writer<'d> {
                                     .unwrap()
                                     .insert(*sym_ref);
                                 sym.set_plt_index(index);
-                            } else {
+                            } else if r_type == R_X86_64_PLT32 {
                                 // replace PLT32 with PC32 since the symbol is local to us
                                 reloc.r_info -= r_type as u64;
                                 reloc.r_info += R_X86_64_PC32 as u64;
diff --git a/src/symbol.rs b/src/symbol.rs
index fcabbf6..4b390d6 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -19,6 +19,7 @@ pub struct Symbol<'r> {
     in_got: Option<usize>,
     in_plt: Option<usize>,
     in_got_plt: Option<usize>,
+    address_taken: bool,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
 }
@@ -33,6 +34,7 @@ impl<'r> Symbol<'r> {
             in_got: None,
             in_plt: None,
             in_got_plt: None,
+            address_taken: false,
             relocation_offset: None,
             dynamic: None,
         }
@@ -98,6 +100,15 @@ impl<'r> Symbol<'r> {
         self.in_plt = Some(index);
     }
 
+    /// Whether the address of a function of a shared library is used directly.
+    pub const fn is_address_taken(&self) -> bool {
+        self.address_taken
+    }
+
+    pub fn set_address_taken(&mut self) {
+        self.address_taken = true;
+    }
+
     pub const fn higher_bind_than(&self, sym: Symbol<'_>) -> bool {
         let s1 = self.st_bind();
         let s2 = sym.st_bind();
-- 
2.43.0


From 8dbe9ed3660a65eb827f401e43e8bcaebc8c1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:39 +0000
Subject: [PATCH 13/66] fix: record the right DT_NEEDED entries

A library is found at runtime by its soname, not by the name of the file that was
linked. Libraries which are not --as-needed were only listed if something used
them, and the order was the one in which symbols were found.
---
 src/elf.rs |  5 +++--
 src/lib.rs | 28 +++++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 8e517cd..b5d1a78 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -586,8 +586,9 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(so_name.to_string());
-        if entry.new {
-            self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
+        let offset = entry.offset as u64;
+        if !self.dyn_entries.iter().any(|e| matches!(e, (DynTag::Needed, o) if *o == offset)) {
+            self.dyn_entries.push((DynTag::Needed, offset));
         }
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 95eee87..a710acc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -141,11 +141,12 @@ impl Linker {
     fn find_undefined_symbols_in_libs<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        used: &mut [bool],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
             symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
-        for (lib, _) in &self.options.shared_libs {
+        for ((lib, _), used) in self.options.shared_libs.iter().zip(used) {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).unwrap();
@@ -163,7 +164,7 @@ impl Linker {
                         writer
                             .add_dyn_symbol(sym.into(), inner_name, path)
                             .map_path_err(path)?;
-                        writer.add_needed(path.file_name().unwrap().to_str().unwrap());
+                        *used = true;
                     }
                 }
             }
@@ -172,6 +173,24 @@ impl Linker {
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
 
+    fn add_needed_libs<'o>(
+        &'o self,
+        used: &[bool],
+        writer: &mut elf::Writer<'o>,
+    ) -> Result<(), Error<'o>> {
+        for ((lib, as_needed), used) in self.options.shared_libs.iter().zip(used) {
+            if *as_needed && !*used {
+                continue;
+            }
+            let path = lib.as_path();
+            let data = read(path).map_path_err(path)?;
+            let elf = Elf::parse(&data).map_path_err(path)?;
+            let file_name = path.file_name().unwrap().to_str().unwrap();
+            writer.add_needed(elf.soname.unwrap_or(file_name));
+        }
+        Ok(())
+    }
+
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
@@ -236,9 +255,11 @@ impl Linker {
             elf.process_symbols(&mut writer)?;
             elf.process_relocations(&mut writer)?;
         }
+        let mut used = vec![false; self.options.shared_libs.len()];
         let mut undefined = writer.undefined_symbols();
         loop {
-            let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
+            let undefined_next =
+                self.find_undefined_symbols_in_libs(&undefined, &mut used, &mut writer)?;
             let undefined_next = self.process_archives_containing(&undefined_next, &mut writer)?;
             // if the length doesn't change, it means we haven't found any of our symbols
             if undefined.len() == undefined_next.len() {
@@ -247,6 +268,7 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        self.add_needed_libs(&used, &mut writer)?;
         writer.compute_sections();
         let mut undefined = writer.undefined_symbols();
         undefined.retain(|s| !writer.is_weak(*s));
-- 
2.43.0


From 76fd4030cf1eb2642e681199531e9f39c9801c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:16 +0000
Subject: [PATCH 14/66] fix: search directories and archives in the order they
 are given

Both were kept in sets, so which of several libraries with the same name (or
archives with the same symbol) was used changed from one run to the next.
---
 src/lib.rs  |  2 +-
 src/main.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a710acc..51e3aaf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -134,7 +134,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: HashSet<PathBuf>,
+    pub archives: Vec<PathBuf>,
 }
 
 impl Linker {
diff --git a/src/main.rs b/src/main.rs
index 45d6b40..f557f5c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
+use std::{io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -31,8 +31,8 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: HashSet<PathBuf>,
-    search_paths: HashSet<PathBuf>,
+    archives: Vec<PathBuf>,
+    search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
@@ -148,7 +148,7 @@ fn handle_linker_args(
             "-L" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-L'.".to_string())?;
-                app.search_paths.insert(path.into());
+                app.search_paths.push(path.into());
                 continue;
             }
             "-l" => {
@@ -179,7 +179,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.insert(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(PathBuf::from(arg).canonicalize().unwrap());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
@@ -210,6 +210,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 let input = dir.join(format!("lib{}.{}", lib.display(), kind));
                 if input.exists() && input.is_file() {
                     found = Some(input);
+                    break;
                 }
             }
         }
@@ -220,7 +221,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.objects.push(lib.canonicalize().unwrap());
                 }
                 FileType::Archive => {
-                    args.archives.insert(lib.canonicalize().unwrap());
+                    let archive = lib.canonicalize().unwrap();
+                    if !args.archives.contains(&archive) {
+                        args.archives.push(archive);
+                    }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
                 FileType::Text => args.scripts.push(lib),
-- 
2.43.0


From 3120051d7b55b8fe12f8333cef00d8c248239e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:17 +0000
Subject: [PATCH 15/66] fix: look for -l libraries only as lib<NAME>.so and
 lib<NAME>.a

A file that happened to be called NAME was linked instead, and files given
without -l were looked up as libraries.
---
 src/main.rs | 58 ++++++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f557f5c..1e1fb78 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -27,6 +27,14 @@ OPTIONS:
   --hash-style STYLE  Set hash style.
 ";
 
+#[derive(Debug)]
+enum Input {
+    /// The path to a file.
+    File(PathBuf),
+    /// The name of a library, as in `-l NAME`.
+    Library(String),
+}
+
 #[derive(Debug, Default)]
 struct AppArgs {
     opts: Options,
@@ -34,7 +42,7 @@ struct AppArgs {
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
-    inputs: Vec<(PathBuf, bool)>,
+    inputs: Vec<(Input, bool)>,
     help: bool,
     as_needed: bool,
 }
@@ -152,9 +160,9 @@ fn handle_linker_args(
                 continue;
             }
             "-l" => {
-                let path =
+                let name =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-l'.".to_string())?;
-                app.inputs.push((path.into(), app.as_needed));
+                app.inputs.push((Input::Library(name), app.as_needed));
                 continue;
             }
             "-z" => {
@@ -181,40 +189,29 @@ fn handle_linker_args(
         if let Some(arg) = arg.strip_prefix("-L") {
             app.search_paths.push(PathBuf::from(arg).canonicalize().unwrap());
         } else if let Some(lib) = arg.strip_prefix("-l") {
-            app.inputs.push((lib.into(), app.as_needed));
+            app.inputs.push((Input::Library(lib.into()), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
             app.opts.hash_style = HashStyle::from_str(arg)?;
         } else {
-            app.inputs.push((arg.into(), app.as_needed));
+            app.inputs.push((Input::File(arg.into()), app.as_needed));
         }
     }
     Ok(())
 }
 
 fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (lib, as_needed) in args.inputs.drain(..) {
-        let mut found = None;
-        if lib.exists() && lib.is_file() {
-            found = Some(lib.clone());
-        }
-        for kind in ["so", "a"] {
-            if found.is_some() {
-                break;
-            }
-            for dir in &args.search_paths {
-                let p = dir.join(&lib);
-                if p.exists() && p.is_file() {
-                    found = Some(p);
-                    break;
-                }
-                let input = dir.join(format!("lib{}.{}", lib.display(), kind));
-                if input.exists() && input.is_file() {
-                    found = Some(input);
-                    break;
-                }
-            }
-        }
-        if let Some(lib) = found.take() {
+    for (input, as_needed) in args.inputs.drain(..) {
+        let dirs = &args.search_paths;
+        let found = match &input {
+            Input::File(file) => std::iter::once(file.clone())
+                .chain(dirs.iter().map(|dir| dir.join(file)))
+                .find(|p| p.is_file()),
+            Input::Library(name) => ["so", "a"]
+                .iter()
+                .flat_map(|kind| dirs.iter().map(move |d| d.join(format!("lib{}.{}", name, kind))))
+                .find(|p| p.is_file()),
+        };
+        if let Some(lib) = found {
             let file_type = file_type(&lib).unwrap();
             match file_type {
                 FileType::ElfObject => {
@@ -230,7 +227,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 FileType::Text => args.scripts.push(lib),
             }
         } else {
-            return Err(lib);
+            return Err(match input {
+                Input::File(file) => file,
+                Input::Library(name) => name.into(),
+            });
         }
     }
     Ok(())
-- 
2.43.0


From 4ad2b6a4231de1af885514ec781ce8cba7cecbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:10 +0000
Subject: [PATCH 16/66] fix: reject linker scripts which cannot be parsed

The parser was run forever on the part of a script that it doesn't know.
---
 src/linker_script.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index afeb65b..1d306d7 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -76,6 +76,10 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
         if let Some(args) = args {
             new_args.extend(args);
         }
+        if leftover.len() == input.len() && !leftover.is_empty() {
+            // nothing that we know comes next
+            return Err(StringStreamError::UnexpectedParse);
+        }
         if !leftover.is_empty() {
             input = leftover;
         } else {
-- 
2.43.0


From 211f846ecbdbdd74f52b5d02b30e78f86457ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:13 +0000
Subject: [PATCH 17/66] fix: parse all comments and file names in linker
 scripts

A comment could not contain a '*', and a name in a GROUP could not start with
an 'A', since neither was tried again as anything else.
---
 src/linker_script.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 1d306d7..7812c35 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -2,7 +2,7 @@ use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
 use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
-use combine::{between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -18,7 +18,7 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    between(string("/*"), string("*/"), skip_until(string("*/")))
+    between(string("/*"), string("*/"), skip_until(attempt(string("*/"))))
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
@@ -42,13 +42,13 @@ where
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
     let args = (skip_many(space()), sep_end_by(parse_arg(), skip_many(space())));
-    (string("AS_NEEDED"), skip_many(space()), between(char('('), char(')'), args)).map(
-        |(_, _, s): (_, _, (_, Vec<String>))| {
-            let mut v: Vec<String> = vec!["--as-needed".into()];
-            v.extend(s.1);
-            v
-        },
-    )
+    // the name of a file can start with the same letters
+    let start = attempt((string("AS_NEEDED"), skip_many(space()), char('(')));
+    (start, args, char(')')).map(|(_, s, _): (_, (_, Vec<String>), _)| {
+        let mut v: Vec<String> = vec!["--as-needed".into()];
+        v.extend(s.1);
+        v
+    })
 }
 
 /// Parses a OUTPUT_FORMAT command like: OUTPUT_FORMAT(elf64-x86-64)
-- 
2.43.0


From 061f69ccd195199d685acabc9119650fa474a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:58 +0000
Subject: [PATCH 18/66] fix: use the inputs of a linker script where the script
 is given

The inputs of scripts came after all others and in the reverse order, inputs
which could not be found were ignored together with all that followed them, and
a script inherited the --as-needed state of the end of the command line.
---
 src/main.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e1fb78..482d290 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,6 +41,7 @@ struct AppArgs {
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
+    /// The linker scripts which are currently being read.
     scripts: Vec<PathBuf>,
     inputs: Vec<(Input, bool)>,
     help: bool,
@@ -49,18 +50,11 @@ struct AppArgs {
 
 fn main() -> Result<(), String> {
     env_logger::init();
-    let mut args = parse_args()?;
+    let args = parse_args()?;
     if args.help {
         println!("{}", HELP);
         return Ok(());
     }
-    while let Some(script) = args.scripts.pop() {
-        let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
-        if !new_args.is_empty() {
-            handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            let _ = search_for_inputs(&mut args);
-        }
-    }
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
     if let Err(e) = linker.link() {
@@ -103,7 +97,7 @@ fn parse_args() -> Result<AppArgs, String> {
     let _ = args.next();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app).map_err(|e| format!("Couldn't find library {}", e.display()))?;
+    search_for_inputs(&mut app)?;
     Ok(app)
 }
 
@@ -199,8 +193,24 @@ fn handle_linker_args(
     Ok(())
 }
 
-fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (input, as_needed) in args.inputs.drain(..) {
+/// Handles a linker script as if its inputs were given instead of it.
+fn handle_script(script: PathBuf, as_needed: bool, args: &mut AppArgs) -> Result<(), String> {
+    let error = |e: &dyn std::fmt::Display| format!("`{}`: {}", script.display(), e);
+    if args.scripts.contains(&script) {
+        return Err(error(&"linker script includes itself"));
+    }
+    let text = std::fs::read_to_string(&script).map_err(|e| error(&e))?;
+    let new_args = linker_script::parse(&text).map_err(|e| error(&e))?;
+    args.scripts.push(script);
+    args.as_needed = as_needed;
+    handle_linker_args(&mut new_args.into_iter().peekable(), args)?;
+    search_for_inputs(args)?;
+    args.scripts.pop();
+    Ok(())
+}
+
+fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
+    for (input, as_needed) in std::mem::take(&mut args.inputs) {
         let dirs = &args.search_paths;
         let found = match &input {
             Input::File(file) => std::iter::once(file.clone())
@@ -224,13 +234,14 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-                FileType::Text => args.scripts.push(lib),
+                FileType::Text => handle_script(lib, as_needed, args)?,
             }
         } else {
-            return Err(match input {
+            let name = match input {
                 Input::File(file) => file,
                 Input::Library(name) => name.into(),
-            });
+            };
+            return Err(format!("Couldn't find library {}", name.display()));
         }
     }
     Ok(())
-- 
2.43.0


From 90267b04af1095da56a3c292e62f5682a56b4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:22 +0000
Subject: [PATCH 19/66] fix: recognise archives and ELF files which are very
 small

An empty archive was taken for a linker script.
---
 src/main.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 482d290..4427dd3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -74,11 +74,8 @@ enum FileType {
 }
 
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
-    let mut f = std::fs::File::open(&input)?;
-    let mut header = [0; 18];
-    if f.read_exact(&mut header).is_err() {
-        return Ok(FileType::Text);
-    }
+    let mut header = vec![];
+    std::fs::File::open(&input)?.take(18).read_to_end(&mut header)?;
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
     } else if header.starts_with(&[0x7f, b'E', b'L', b'F']) {
-- 
2.43.0


From 4657a95940799f90e6630c533b27ab3cbf890b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:23 +0000
Subject: [PATCH 20/66] fix: reject inputs which cannot be linked

An executable among the objects was ignored without a word.
---
 src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 51e3aaf..e6bccdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,9 +43,12 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 }
 
 impl<'p, 'd> Input<'p, 'd> {
-    fn to_elf_object<'i>(&'i self) -> Result<Option<ElfObject<'i, 'p, '_, 'i>>, Error<'p>> {
+    fn to_elf_object<'i>(&'i self) -> Result<ElfObject<'i, 'p, '_, 'i>, Error<'p>> {
         let elf = Elf::parse(self.data).map_path_err(self.path)?;
-        Ok(if elf.is_object_file() { Some(ElfObject::new(self, elf)) } else { None })
+        if !elf.is_object_file() {
+            return Err(Error::new(self.path, "not an object file".to_string()));
+        }
+        Ok(ElfObject::new(self, elf))
     }
 }
 
@@ -220,7 +223,7 @@ impl Linker {
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
-                let mut elf = input.to_elf_object()?.unwrap();
+                let mut elf = input.to_elf_object()?;
                 elf.process_sections(writer)?;
                 elf.process_symbols(writer)?;
                 elf.process_relocations(writer)?;
@@ -246,10 +249,9 @@ impl Linker {
             .collect::<Result<Vec<Input>, Error<'_>>>()?;
         let mut elfs = Vec::with_capacity(inputs.len());
         for input in &inputs {
-            if let Some(mut elf) = input.to_elf_object()? {
-                elf.process_sections(&mut writer)?;
-                elfs.push(elf);
-            };
+            let mut elf = input.to_elf_object()?;
+            elf.process_sections(&mut writer)?;
+            elfs.push(elf);
         }
         for elf in &mut elfs {
             elf.process_symbols(&mut writer)?;
-- 
2.43.0


From 3f34e99b4dba12a2e8ebe90724168789853fab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:11 +0000
Subject: [PATCH 21/66] fix: reject relocation values which do not fit their
 field

R_X86_64_32S values were truncated, and R_X86_64_32 (which is zero-extended)
only accepted values up to 2^31.
---
 src/elf/chunk.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index d9af011..b44e081 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -134,28 +134,29 @@ fn apply_relocation(
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i64 = match symbol.dynamic() {
         Some(dyn_sym) if symbol.is_undefined() => {
-            dyn_table.get(dyn_sym).unwrap().st_value.try_into().unwrap()
+            dyn_table.get(dyn_sym).unwrap().st_value as i64
         }
-        _ => symbol.st_value.try_into().unwrap(),
+        _ => symbol.st_value as i64,
     };
     let a = rel.r_addend;
     let p: i64 = (chunk_address + rel.r_offset).try_into().unwrap();
+    // values wrap around, only the final one has to fit
+    let sa = s.wrapping_add(a);
     let _z = symbol.st_size;
     let got: i64 = got_address.try_into().unwrap();
     let l = symbol.plt_index();
     let offset = rel.r_offset as usize;
     match (rel.r_info & 0xffff_ffff) as u32 {
         R_X86_64_NONE => {}
-        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
+        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(sa).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_u32::<LittleEndian>(sa.try_into().unwrap()).unwrap();
         }
         R_X86_64_32S => {
-            // TODO warn about truncation
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()
+            (&mut data[offset..]).write_i32::<LittleEndian>(sa.try_into().unwrap()).unwrap()
         }
         R_X86_64_PC32 => (&mut data[offset..])
-            .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
+            .write_i32::<LittleEndian>(sa.wrapping_sub(p).try_into().unwrap())
             .unwrap(),
         R_X86_64_GOT32 => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
@@ -167,7 +168,7 @@ fn apply_relocation(
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = (s + a - p).try_into().unwrap();
+            let value: i32 = sa.wrapping_sub(p).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
@@ -212,7 +213,7 @@ fn apply_relocation(
                     ref x => unreachable!("{:?}", &x),
                 };
                 buf[..3].as_mut().write_all(&instr).unwrap();
-                let value: i32 = (s + a - p).try_into().unwrap();
+                let value: i32 = sa.wrapping_sub(p).try_into().unwrap();
                 buf[3..].as_mut().write_i32::<LittleEndian>(value).unwrap();
             } else {
                 let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
-- 
2.43.0


From c3dafe6e4a6cfca6eb9768b4b431f223a2b8df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:53 +0000
Subject: [PATCH 22/66] fix: set the bounds of the whole .init_array and
 .fini_array

When several objects contributed to the section, the end was as far after the
last contribution as the section is long. The symbols are also there if the
section isn't, and leave a definition of the program alone.
---
 src/elf.rs         | 50 ++++++++++++++++++++++------------------------
 src/elf/section.rs |  4 ----
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b5d1a78..f2f1093 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -697,34 +697,32 @@ impl<'d> Writer<'d> {
                 s.st_value = got_plt_addr;
             };
         }
-        let skip = [self.sym_str_section.read().sh_name, self.shstr_section.read().sh_name];
-        for section in self.sections.iter().filter(|s| !skip.contains(&s.read().sh_name)) {
-            let mut section = section.write();
-            if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__init_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
-                }
-                if let Some(s) = symbol_names.get("__init_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
-                    let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    if let Some(symbol) = symbols.get_mut(sym_ref) {
-                        symbol.st_value = section.size_on_disk();
+        for (name, start, end) in [
+            (".init_array", "__init_array_start", "__init_array_end"),
+            (".fini_array", "__fini_array_start", "__fini_array_end"),
+        ] {
+            let mut symbols = as_mut_sym_tab(&self.sym_section);
+            let section = self
+                .sections
+                .iter()
+                .skip(1)
+                .find(|s| is_some_with(section_names.sh_name(name), &s.read().sh_name));
+            let size = section.map_or(0, |s| s.read().sh_size);
+            for (symbol, offset) in [(start, 0), (end, size)] {
+                let sym_ref = match symbol_names.get(symbol) {
+                    Some(s) => SymbolRef::Named(s.offset as u32),
+                    None => continue,
+                };
+                match symbols.get_mut(sym_ref) {
+                    Some(s) if s.is_undefined() => {
+                        // without a section, both are the same
+                        s.st_shndx = SHN_ABS as u16;
+                        s.st_value = offset;
                     }
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
-                }
-            } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__fini_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
+                    _ => continue,
                 }
-                if let Some(s) = symbol_names.get("__fini_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
-                    let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    if let Some(symbol) = symbols.get_mut(sym_ref) {
-                        symbol.st_value = section.size_on_disk();
-                    }
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                if let Some(section) = section {
+                    section.write().chunk_mut(0).add_symbol(sym_ref);
                 }
             }
         }
diff --git a/src/elf/section.rs b/src/elf/section.rs
index b81b475..206230b 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -167,10 +167,6 @@ impl<'p> Section<'p> {
         self.chunks.len() - 1
     }
 
-    pub fn last_chunk_index(&self) -> usize {
-        self.chunks.len() - 1
-    }
-
     pub fn chunk_mut(&mut self, i: usize) -> &mut Chunk {
         &mut self.chunks[i]
     }
-- 
2.43.0


From a1510e0c8cff10890ad02084274b93d9479b4d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:26 +0000
Subject: [PATCH 23/66] fix: reserve memory for the objects copied from
 libraries

The size of .copyrel was only known after all addresses were assigned, so its
storage overlapped what came after it, or was outside of the segment.
---
 src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elf.rs b/src/elf.rs
index f2f1093..51a8e9b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -908,6 +908,7 @@ impl<'d> Writer<'d> {
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
-- 
2.43.0


From 6e943923c852f60fdae3e522ad1bd5a507d04557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:50 +0000
Subject: [PATCH 24/66] fix: align the storage of objects copied from libraries

The objects were packed one after the other, whatever their types require.
---
 src/elf.rs          | 12 +++++++++++-
 src/elf/copy_rel.rs | 11 ++++++++---
 src/lib.rs          |  5 ++++-
 src/symbol.rs       | 11 +++++++++++
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 51a8e9b..3c3dcde 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -490,9 +490,15 @@ impl<'d> Writer<'d> {
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
+        section_alignment: u64,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
+        // the object needs no more than its section does, nor than its own address has
+        let alignment = match 1 << elf_sym.st_value.trailing_zeros().min(12) {
+            a if section_alignment.is_power_of_two() => section_alignment.min(a),
+            a => a,
+        };
         elf_sym.st_shndx = SHN_UNDEF as u16;
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
@@ -504,6 +510,9 @@ impl<'d> Writer<'d> {
         )
         .map(|(dyn_ref, _)| dyn_ref);
         if let Ok(dyn_ref) = r {
+            let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+            let dyn_sym = dyn_symbols.get_mut(dyn_ref).unwrap();
+            dyn_sym.set_alignment(dyn_sym.alignment().max(alignment));
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
             {
@@ -894,12 +903,13 @@ impl<'d> Writer<'d> {
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
                     let size = dyn_symbol.st_size;
+                    let alignment = dyn_symbol.alignment();
                     let offset = self
                         .copy_rel_section
                         .write()
                         .inner_mut::<CopyRel>()
                         .unwrap()
-                        .insert(dyn_sym, size);
+                        .insert(dyn_sym, size, alignment);
                     self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
                     dyn_symbol.st_value = offset;
                 }
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 273839d..9e582f0 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use goblin::elf64::section_header::{SectionHeader, SHF_ALLOC, SHF_WRITE, SHT_NOBITS};
 
 use super::{
+    round_to,
     section::{Synthesized, SynthesizedKind},
     Section, SymbolRef,
 };
@@ -11,15 +12,18 @@ use super::{
 pub struct CopyRel {
     // the total size of the section
     size: u64,
+    // the largest alignment of any slot
+    alignment: u64,
     // a mappings from a symbol to a "slot" in the section
     slots: HashMap<SymbolRef, u64>,
 }
 
 impl CopyRel {
-    pub fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
-        let offset = self.size;
+    pub fn insert(&mut self, sym: SymbolRef, size: u64, alignment: u64) -> u64 {
+        let offset = round_to(self.size, alignment);
         self.slots.insert(sym, offset);
-        self.size += size;
+        self.size = offset + size;
+        self.alignment = self.alignment.max(alignment);
         offset
     }
 }
@@ -36,6 +40,7 @@ impl<'p> Synthesized<'p> for CopyRel {
 
     fn expand(&self, sh: &mut Section) {
         sh.sh_size = self.size as u64;
+        sh.sh_addralign = sh.sh_addralign.max(self.alignment);
     }
 
     fn as_ref<'k>(kind: &'k SynthesizedKind<'p>) -> Option<&'k Self> {
diff --git a/src/lib.rs b/src/lib.rs
index e6bccdc..cf3580b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,8 +164,11 @@ impl Linker {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         *entry.1 = true;
+                        // not known if the library has no section headers
+                        let alignment =
+                            elf.section_headers.get(sym.st_shndx).map_or(0, |s| s.sh_addralign);
                         writer
-                            .add_dyn_symbol(sym.into(), inner_name, path)
+                            .add_dyn_symbol(sym.into(), alignment, inner_name, path)
                             .map_path_err(path)?;
                         *used = true;
                     }
diff --git a/src/symbol.rs b/src/symbol.rs
index 4b390d6..f7399aa 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -22,6 +22,8 @@ pub struct Symbol<'r> {
     address_taken: bool,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
+    // what a copy of an object of a shared library has to be aligned to
+    alignment: u64,
 }
 
 impl<'r> Symbol<'r> {
@@ -37,6 +39,7 @@ impl<'r> Symbol<'r> {
             address_taken: false,
             relocation_offset: None,
             dynamic: None,
+            alignment: 1,
         }
     }
 
@@ -100,6 +103,14 @@ impl<'r> Symbol<'r> {
         self.in_plt = Some(index);
     }
 
+    pub const fn alignment(&self) -> u64 {
+        self.alignment
+    }
+
+    pub fn set_alignment(&mut self, alignment: u64) {
+        self.alignment = alignment;
+    }
+
     /// Whether the address of a function of a shared library is used directly.
     pub const fn is_address_taken(&self) -> bool {
         self.address_taken
-- 
2.43.0


From 02b4ff0ca4722bf5ca0682152e0473d1f9c79c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:14 +0000
Subject: [PATCH 25/66] fix: forget a library's definition once an object has
 another one

A member of an archive can define a symbol which was already found in a library.
Calls then went to the one and other references to the other definition.
---
 src/elf.rs              |  7 +++++--
 src/elf/copy_rel.rs     |  4 ++++
 src/elf/symbol_table.rs | 19 ++++++++++++-------
 src/symbol.rs           |  4 ++++
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3c3dcde..26e5e53 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -749,8 +749,11 @@ impl<'d> Writer<'d> {
 
         // handle dynamic object symbols
         let copy_rel = self.copy_rel_section.read();
-        as_mut_sym_tab(&self.dyn_sym_section)
-            .update_object_symbols(copy_rel.sh_addr, copy_rel.index());
+        as_mut_sym_tab(&self.dyn_sym_section).update_object_symbols(
+            copy_rel.inner::<CopyRel>().unwrap(),
+            copy_rel.sh_addr,
+            copy_rel.index(),
+        );
     }
 
     fn compute_tables(&mut self) {
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 9e582f0..0e646aa 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -26,6 +26,10 @@ impl CopyRel {
         self.alignment = self.alignment.max(alignment);
         offset
     }
+
+    pub fn contains(&self, sym: SymbolRef) -> bool {
+        self.slots.contains_key(&sym)
+    }
 }
 
 impl<'p> Synthesized<'p> for CopyRel {
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index ec9871a..730fd33 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -16,7 +16,10 @@ use std::{
 };
 use thiserror::Error;
 
-use super::section::{Synthesized, SynthesizedKind};
+use super::{
+    section::{Synthesized, SynthesizedKind},
+    CopyRel,
+};
 
 /// A symbol can be fetched by indexing `symbols` in the following way: `symbols[st_name]`.
 #[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
@@ -151,6 +154,10 @@ impl<'p> SymbolTable<'p> {
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
+                    if !new_sym.is_undefined() {
+                        // our own definition is used instead of the one of a library
+                        old_sym.clear_dynamic();
+                    }
                     outcome
                 } else {
                     Outcome::Ignored
@@ -234,14 +241,12 @@ impl<'p> SymbolTable<'p> {
         &mut self.symbols
     }
 
-    /// Updates all objects symbols to point to `.copyrel`.
+    /// Updates all symbols of copied objects to point to `.copyrel`.
     /// Note: This assumes that `st_value`s already have the correct offsets
     /// into `.copyrel`.
-    pub fn update_object_symbols(&mut self, copy_rel_addr: u64, index: usize) {
-        for sym in
-            self.symbols
-                .iter_mut()
-                .filter_map(|(_, sym)| if sym.is_object() { Some(sym) } else { None })
+    pub fn update_object_symbols(&mut self, copies: &CopyRel, copy_rel_addr: u64, index: usize) {
+        for (_, sym) in
+            self.symbols.iter_mut().filter(|(name, _)| copies.contains(SymbolRef::Named(**name)))
         {
             sym.st_value += copy_rel_addr;
             sym.st_shndx = index as u16;
diff --git a/src/symbol.rs b/src/symbol.rs
index f7399aa..ecbc80a 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -145,6 +145,10 @@ impl<'r> Symbol<'r> {
         self.dynamic = Some(dynamic);
     }
 
+    pub fn clear_dynamic(&mut self) {
+        self.dynamic = None;
+    }
+
     pub const fn relocation_offset(&self) -> Option<usize> {
         self.relocation_offset
     }
-- 
2.43.0


From 0564c58883875f2dbe6af5f00c719ec9c48c37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:41 +0000
Subject: [PATCH 26/66] fix: accept -L with a directory that does not exist

Such a directory has no libraries, as with '-L DIR'.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4427dd3..d169684 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -178,7 +178,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.push(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((Input::Library(lib.into()), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
-- 
2.43.0


From 848cad09b58b9eba66ee949f927af52c69e9891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:42 +0000
Subject: [PATCH 27/66] fix: accept '--hash-style STYLE' as it is documented

Only '--hash-style=STYLE' was understood.
---
 src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d169684..1f91a84 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -162,6 +162,13 @@ fn handle_linker_args(
                     .ok_or_else(|| "Missing argument <KEYWORD> for '-z'.".to_string())?;
                 continue;
             }
+            "--hash-style" => {
+                let style = args
+                    .next()
+                    .ok_or_else(|| "Missing argument <STYLE> for '--hash-style'.".to_string())?;
+                app.opts.hash_style = HashStyle::from_str(&style)?;
+                continue;
+            }
             "--as-needed" => {
                 app.as_needed = true;
                 continue;
-- 
2.43.0


From 68079b8f46351e86993c9a543b90612308066ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:17 +0000
Subject: [PATCH 28/66] fix: do not take the input after --build-id for its
 style

The style is optional, so whatever is not a style is the next argument.
---
 src/main.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1f91a84..5a93150 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -105,15 +105,14 @@ fn handle_linker_args(
     while let Some(arg) = args.next() {
         match arg.as_str() {
             "--build-id" => {
-                if let Some(arg) = args.peek() {
-                    if !arg.starts_with("--") && !arg.starts_with('-') {
-                        app.opts.build_id = Some(BuildId::from_str(&args.next().unwrap())?);
-                    } else {
-                        app.opts.build_id = Some(BuildId::default());
+                // the style is optional, what comes next can be an input
+                app.opts.build_id = Some(match args.peek().map(|arg| BuildId::from_str(arg)) {
+                    Some(Ok(style)) => {
+                        args.next();
+                        style
                     }
-                } else {
-                    app.opts.build_id = Some(BuildId::default());
-                }
+                    _ => BuildId::default(),
+                });
                 continue;
             }
             "-m" => {
-- 
2.43.0


From e48aef8ee64a194ff2dcdf45d2dc3afe8307d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:19 +0000
Subject: [PATCH 29/66] fix: never leave an executable behind when a link fails

An output which already existed kept its mode, so after a failure its path held
an empty or incomplete file that could still be executed.
---
 src/elf.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 26e5e53..8036628 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -171,7 +171,20 @@ pub struct Writer<'d> {
 
 impl<'d> Writer<'d> {
     pub fn new(options: &'d options::Options) -> std::io::Result<Self> {
-        let out = File::create(options.output.as_path())?;
+        let output = options.output.as_path();
+        // what an earlier link left behind must not be executable if this one fails
+        if let Ok(metadata) = output.symlink_metadata() {
+            if metadata.file_type().is_file() || metadata.file_type().is_symlink() {
+                let _ = std::fs::remove_file(output);
+            }
+        }
+        let out = File::create(output)?;
+        let metadata = out.metadata()?;
+        if metadata.is_file() {
+            let mut perm = metadata.permissions();
+            perm.set_mode(perm.mode() & !0o111);
+            out.set_permissions(perm)?;
+        }
         let eh = Header {
             #[rustfmt::skip]
             e_ident: [
@@ -1053,9 +1066,13 @@ impl<'d> Writer<'d> {
             );
             offset += section.serialize(&mut self.out);
         }
-        let mut perm = self.out.metadata().unwrap().permissions();
-        perm.set_mode(0o755);
-        self.out.set_permissions(perm).unwrap();
+        let metadata = self.out.metadata().unwrap();
+        // leave e.g. `/dev/null` alone
+        if metadata.is_file() {
+            let mut perm = metadata.permissions();
+            perm.set_mode(0o755);
+            self.out.set_permissions(perm).unwrap();
+        }
     }
 
     fn count_program_headers(&self) -> usize {
-- 
2.43.0


From 04ce4f724e91e6952a1b382982ca82430b5fc8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:20 +0000
Subject: [PATCH 30/66] fix: report success even if the standard output is full

The link was complete, but the linker failed to say so and exited with an error.
---
 src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5a93150..a452688 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,10 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{io::Read, path::PathBuf, str::FromStr};
+use std::{
+    io::{Read, Write},
+    path::PathBuf,
+    str::FromStr,
+};
 
 mod linker_script;
 
@@ -60,7 +64,12 @@ fn main() -> Result<(), String> {
     if let Err(e) = linker.link() {
         Err(format!("{}", e))
     } else {
-        println!("Elf executable in: {}", linker.options.output.display());
+        // the link is complete, even if nobody can be told about it
+        let _ = writeln!(
+            std::io::stdout(),
+            "Elf executable in: {}",
+            linker.options.output.display()
+        );
         Ok(())
     }
 }
-- 
2.43.0


From 96f445176184e5095441d35e4b778ef9c84c82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:46 +0000
Subject: [PATCH 31/66] fix: link objects with debug information

Relocations in sections which aren't loaded failed, since these sections have no
address. As in other linkers, they are placed at 0.
---
 src/elf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 8036628..ac09f87 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1114,6 +1114,8 @@ impl<'d> Writer<'d> {
                     &mut first_load_data,
                 );
                 if program_header.is_none() {
+                    // what isn't loaded is referred to by its offset in the section
+                    sh.set_address(0);
                     self.file_offset = round_to(self.file_offset, sh.sh_addralign);
                     sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
                 }
@@ -1131,6 +1133,7 @@ impl<'d> Writer<'d> {
                 sh.set_address(self.p_vaddr);
                 self.p_vaddr += sh.sh_size;
             } else {
+                sh.set_address(0);
                 self.file_offset = round_to(self.file_offset, sh.sh_addralign);
                 sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
             }
-- 
2.43.0


From b7660916caee9cce9c5fa5e425254d20ab75b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:39 +0000
Subject: [PATCH 32/66] fix: run constructors and destructors which have a
 priority

Every .init_array.N became a section of its own, of which only the last one was
announced in the dynamic section.
---
 src/elf.rs       | 24 +++++++++++++++++++++++-
 src/elf/chunk.rs | 19 ++++++++++++++++++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ac09f87..6ce160d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -397,9 +397,14 @@ impl<'d> Writer<'d> {
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
     ) -> SectionRef<'d> {
+        let mut name = name.into();
+        let mut chunk = data.map(Chunk::from).unwrap_or_else(|| Chunk::nobits(sh.sh_size));
+        if let Some((array, priority)) = array_priority(&name) {
+            name = array.into();
+            chunk.set_priority(priority);
+        }
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
-        let mut chunk = data.map(Chunk::from).unwrap_or_else(|| Chunk::nobits(sh.sh_size));
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -814,6 +819,13 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// Arranges the parts of `.init_array` and `.fini_array` by their priority.
+    fn sort_chunks(&mut self) {
+        for section in &self.sections {
+            section.write().chunks_mut().sort_by_key(Chunk::priority);
+        }
+    }
+
     fn scan_relocations(&mut self) {
         for section in &mut self.sections {
             for chunk in section.write().chunks_mut() {
@@ -875,6 +887,8 @@ impl<'d> Writer<'d> {
     }
 
     fn assign_section_addresses(&mut self) {
+        self.sort_chunks();
+
         self.scan_relocations();
 
         self.resize_got_section();
@@ -1331,6 +1345,14 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     }
 }
 
+/// Splits the name of e.g. `.init_array.101`.
+fn array_priority(name: &str) -> Option<(&'static str, u32)> {
+    [".init_array", ".fini_array"].iter().find_map(|array| {
+        let priority = name.strip_prefix(array)?.strip_prefix('.')?.parse().ok()?;
+        Some((*array, priority))
+    })
+}
+
 fn plt_entry_addr(base_addr: u64, index: usize) -> i64 {
     let addr = base_addr + PLT_ENTRY_SIZE as u64 * (1 + index as u64);
     addr.try_into().unwrap()
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index b44e081..37d5044 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -13,13 +13,22 @@ pub struct Chunk {
     data: Vec<u8>,
     // number of zeroes after `data` which only take up space in memory
     zeroes: u64,
+    // chunks with a lower priority come first in their section
+    priority: u32,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
 }
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, zeroes: 0, symbols: Default::default(), relocations: vec![] }
+        Self {
+            address: None,
+            data,
+            zeroes: 0,
+            priority: u32::MAX,
+            symbols: Default::default(),
+            relocations: vec![],
+        }
     }
 
     /// A chunk of a section which occupies no space in the file.
@@ -42,6 +51,14 @@ impl Chunk {
         }
     }
 
+    pub fn priority(&self) -> u32 {
+        self.priority
+    }
+
+    pub fn set_priority(&mut self, priority: u32) {
+        self.priority = priority;
+    }
+
     /// The number of bytes the chunk takes up in memory.
     pub fn size(&self) -> u64 {
         self.data.len() as u64 + self.zeroes
-- 
2.43.0


From 0787ae65019129ed1c763d43bbde0060bbad3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:52 +0000
Subject: [PATCH 33/66] fix: allocate common symbols

The address of a common symbol was its alignment, and two of them with the same
name were taken for duplicate definitions.
---
 src/elf.rs              | 26 ++++++++++++++++++++++++++
 src/elf/symbol_table.rs |  9 +++++++++
 src/lib.rs              | 14 ++++++++++----
 src/symbol.rs           |  6 +++++-
 4 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 6ce160d..dba6bbb 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -819,6 +819,30 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// Makes room in `.bss` for the symbols which are not in any section.
+    fn allocate_commons(&mut self) {
+        let mut commons = as_sym_tab(&self.sym_section)
+            .named()
+            .values()
+            .filter(|s| s.is_common())
+            .map(|s| (s.st_name, s.st_size, s.st_value))
+            .collect::<Vec<_>>();
+        commons.sort_unstable();
+        for (st_name, size, alignment) in commons {
+            let sh = goblin::elf::SectionHeader {
+                sh_type: SHT_NOBITS,
+                sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                sh_size: size,
+                sh_addralign: alignment,
+                ..Default::default()
+            };
+            let SectionRef { section, chunk } = self.add_section(".bss", &sh, None);
+            let sym_ref = SymbolRef::Named(st_name);
+            as_mut_sym_tab(&self.sym_section).get_mut(sym_ref).unwrap().st_value = 0;
+            section.write().chunk_mut(chunk).add_symbol(sym_ref);
+        }
+    }
+
     /// Arranges the parts of `.init_array` and `.fini_array` by their priority.
     fn sort_chunks(&mut self) {
         for section in &self.sections {
@@ -1003,6 +1027,8 @@ impl<'d> Writer<'d> {
     // section header 2
     // ...
     pub fn compute_sections(&mut self) {
+        self.allocate_commons();
+
         self.assign_section_addresses();
 
         self.handle_special_symbols();
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 730fd33..a53a912 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -123,9 +123,17 @@ impl<'p> SymbolTable<'p> {
         let outcome = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
+                if old_sym.is_common() && new_sym.is_common() {
+                    // `st_value` is the alignment
+                    old_sym.st_value = old_sym.st_value.max(new_sym.st_value);
+                    old_sym.st_size = old_sym.st_size.max(new_sym.st_size);
+                    return Ok((SymbolRef::Named(st_name), Outcome::Ignored));
+                }
+                let common = old_sym.is_common() || new_sym.is_common();
                 // we found another definition of this global symbol
                 if old_sym.is_global()
                     && new_sym.is_global()
+                    && !common
                     && old_sym.st_shndx != SHN_UNDEF as u16
                     && new_sym.st_shndx != SHN_UNDEF as u16
                 {
@@ -141,6 +149,7 @@ impl<'p> SymbolTable<'p> {
                 let replace = match (old_sym.is_undefined(), new_sym.is_undefined()) {
                     (true, false) => true,
                     (false, true) => false,
+                    _ if old_sym.is_common() && new_sym.is_global() => true,
                     _ => !old_sym.higher_bind_than(new_sym),
                 };
                 if replace {
diff --git a/src/lib.rs b/src/lib.rs
index cf3580b..f193dd3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
+            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
             SHT_SYMTAB,
         },
     },
@@ -67,9 +67,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            if section.sh_addralign > MAX_ALIGNMENT
-                || (section.sh_addralign != 0 && !section.sh_addralign.is_power_of_two())
-            {
+            if !is_valid_alignment(section.sh_addralign) {
                 let msg = format!("{} has invalid alignment {}", name, section.sh_addralign);
                 return Err(Error::new(self.input.path, msg));
             }
@@ -95,6 +93,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
+            if symbol.st_shndx == SHN_COMMON as usize && !is_valid_alignment(symbol.st_value) {
+                let msg = format!("{} has invalid alignment {}", name, symbol.st_value);
+                return Err(Error::new(self.input.path, msg));
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
@@ -290,6 +292,10 @@ impl Linker {
     }
 }
 
+fn is_valid_alignment(alignment: u64) -> bool {
+    alignment == 0 || (alignment.is_power_of_two() && alignment <= MAX_ALIGNMENT)
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
diff --git a/src/symbol.rs b/src/symbol.rs
index ecbc80a..39ff72b 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use goblin::elf64::{
-    section_header::SHN_UNDEF,
+    section_header::{SHN_COMMON, SHN_UNDEF},
     sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
 };
 
@@ -75,6 +75,10 @@ impl<'r> Symbol<'r> {
         self.sym.st_shndx == SHN_UNDEF as u16
     }
 
+    pub const fn is_common(&self) -> bool {
+        self.sym.st_shndx == SHN_COMMON as u16
+    }
+
     pub const fn reference(&self) -> &Path {
         self.reference
     }
-- 
2.43.0


From 4ce4dd4e3f4c50441c1b7f76c5dff557170c0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:42 +0000
Subject: [PATCH 34/66] fix: do not wait forever without .init_array or
 .fini_array

---
 src/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index dba6bbb..fcb4126 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -728,13 +728,13 @@ impl<'d> Writer<'d> {
             (".init_array", "__init_array_start", "__init_array_end"),
             (".fini_array", "__fini_array_start", "__fini_array_end"),
         ] {
-            let mut symbols = as_mut_sym_tab(&self.sym_section);
             let section = self
                 .sections
                 .iter()
                 .skip(1)
                 .find(|s| is_some_with(section_names.sh_name(name), &s.read().sh_name));
             let size = section.map_or(0, |s| s.read().sh_size);
+            let mut symbols = as_mut_sym_tab(&self.sym_section);
             for (symbol, offset) in [(start, 0), (end, size)] {
                 let sym_ref = match symbol_names.get(symbol) {
                     Some(s) => SymbolRef::Named(s.offset as u32),
-- 
2.43.0


From 370f767057dfe6752a135a4a67775faa0b12de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:30 +0000
Subject: [PATCH 35/66] fix: reach the right address in rewritten indirect
 calls

---
 src/elf/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 37d5044..20a0662 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -185,7 +185,8 @@ fn apply_relocation(
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = sa.wrapping_sub(p).try_into().unwrap();
+            // the new displacement is one byte closer to the start of the instruction
+            let value: i32 = sa.wrapping_sub(p).wrapping_add(1).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
-- 
2.43.0


From fe5f5ec66ee40bf6a823f3ade20d2f3b70dae4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:50 +0000
Subject: [PATCH 36/66] fix: fill the .got slots of symbols of the program

---
 src/elf.rs       | 16 ++++++++++++++--
 src/elf/chunk.rs | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index fcb4126..86bd3b1 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -146,6 +146,8 @@ pub struct Writer<'d> {
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
     got_len: usize,
+    // the slots of `.got` which hold the address of one of our symbols
+    got_rels: Vec<(Rela, SymbolRef)>,
     got_plt: HashMap<SymbolRef, usize>,
     dyn_entries: Vec<(DynTag, u64)>,
     program_headers: Vec<ProgramHeader>,
@@ -366,6 +368,7 @@ impl<'d> Writer<'d> {
             sections,
             // first entry reserved
             got_len: 1,
+            got_rels: vec![],
             got_plt: Default::default(),
             dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
             program_headers: vec![],
@@ -623,7 +626,11 @@ impl<'d> Writer<'d> {
         let data = std::iter::repeat(0).take(size_of::<u64>() * self.got_len).collect::<Vec<u8>>();
         let mut section = self.got_section.write();
         section.sh_size = data.len() as u64;
-        section.add_chunk(data.into());
+        let mut chunk = Chunk::from(data);
+        for (rel, sym_ref) in self.got_rels.drain(..) {
+            chunk.add_relocation(rel, sym_ref);
+        }
+        section.add_chunk(chunk);
     }
 
     fn resize_got_plt_section(&mut self) {
@@ -867,7 +874,12 @@ impl<'d> Writer<'d> {
                         | R_X86_64_GOTTPOFF => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             if sym.got_offset().is_none() {
-                                sym.set_got_offset(self.got_len * size_of::<u64>());
+                                let offset = self.got_len * size_of::<u64>();
+                                sym.set_got_offset(offset);
+                                if sym.dynamic().is_none() && !sym.is_tls() {
+                                    // we know the value of the slot
+                                    self.got_rels.push((rela(offset, 0, R_X86_64_64), *sym_ref));
+                                }
                                 // For TLSGD relocations we need to allocate two slots
                                 self.got_len +=
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 20a0662..ba81b1e 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -137,6 +137,15 @@ impl std::ops::DerefMut for Chunk {
     }
 }
 
+/// Whether the instruction which contains the field can do without its `.got` slot.
+fn is_rewritable(data: &[u8], rel: Rela) -> bool {
+    match (rel.r_info as u32, &data[..rel.r_offset as usize]) {
+        (R_X86_64_GOTPCRELX, [.., 0xff, 0x15 | 0x25]) => true,
+        (R_X86_64_REX_GOTPCRELX, [.., 0x48 | 0x4c, 0x8b, modrm]) => modrm & 0xc7 == 0x05,
+        _ => false,
+    }
+}
+
 fn apply_relocation(
     chunk_address: u64,
     data: &mut [u8],
@@ -181,7 +190,7 @@ fn apply_relocation(
                 .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
                 .unwrap()
         }
-        R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
+        R_X86_64_GOTPCRELX if symbol.dynamic().is_none() && is_rewritable(data, rel) => {
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
@@ -203,13 +212,13 @@ fn apply_relocation(
                 ref x => unreachable!("{:?}", x),
             }
         }
-        R_X86_64_GOTPCRELX => {
+        R_X86_64_GOTPCREL | R_X86_64_GOTPCRELX => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             let value: i32 = (g + got + a - p).try_into().unwrap();
             (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
         }
         R_X86_64_REX_GOTPCRELX => {
-            if symbol.dynamic().is_none() {
+            if symbol.dynamic().is_none() && is_rewritable(data, rel) {
                 let buf = &mut data[offset - 3..];
                 let instr = match buf[..3] {
                     [0x48, 0x8b, 0x05] => [0x48, 0x8d, 0x05], // mov 0x0(%rip),%rax -> lea 0x0(%rip),%rax
-- 
2.43.0


From e8c1ae0c4288290a95e424ecf0b371e251cf1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:23 +0000
Subject: [PATCH 37/66] fix: use the first member of an archive which defines a
 symbol

---
 src/lib.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f193dd3..58f6199 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,7 +7,7 @@ mod utils;
 
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
-    archive::Archive,
+    archive::{Archive, Index, Member, SIZEOF_MAGIC},
     elf::Elf,
     elf64::{
         reloc::Rela,
@@ -210,6 +210,7 @@ impl Linker {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
+            let index = get_archive_index(&ar, &data).map_path_err(path)?;
             let mut members = HashSet::new();
             // a weak reference doesn't need a definition, so it isn't a reason to load a member
             for entry in undefines.iter_mut().filter(|(s, _)| !writer.is_weak(**s)) {
@@ -218,13 +219,13 @@ impl Linker {
                 } else {
                     continue;
                 };
-                if let Some(member) = ar.member_of_symbol(&*name) {
+                if let Some(member) = index.get(&*name) {
                     *entry.1 = true;
-                    members.insert(member);
+                    members.insert(*member);
                 }
             }
             for member in members {
-                let object = ar.get(member).unwrap();
+                let object = ar.get_at(member).unwrap();
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
@@ -296,6 +297,36 @@ fn is_valid_alignment(alignment: u64) -> bool {
     alignment == 0 || (alignment.is_power_of_two() && alignment <= MAX_ALIGNMENT)
 }
 
+/// The first member which defines each symbol of an archive.
+fn get_archive_index<'a>(
+    ar: &Archive<'a>,
+    data: &'a [u8],
+) -> Result<HashMap<&'a str, usize>, goblin::error::Error> {
+    let mut index = HashMap::new();
+    if ar.len() == 0 {
+        return Ok(index);
+    }
+    let first = Member::parse(data, &mut { SIZEOF_MAGIC })?;
+    if first.raw_name().trim_end() != "/" {
+        // not a System V archive
+        for (i, (_, _, symbols)) in ar.summarize().into_iter().enumerate() {
+            index.extend(symbols.into_iter().map(|s| (s, i)));
+        }
+        return Ok(index);
+    }
+    let members = (0..ar.len())
+        .map(|i| (ar.get_at(i).unwrap().header_offset, i))
+        .collect::<HashMap<u64, usize>>();
+    let start = first.offset as usize;
+    let symbols = Index::parse_sysv_index(&data[start..start + first.size()])?;
+    for (offset, symbol) in symbols.symbol_indexes.iter().zip(symbols.strtab) {
+        if let Some(member) = members.get(&(*offset as u64)) {
+            index.entry(symbol).or_insert(*member);
+        }
+    }
+    Ok(index)
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From df0d132e01125f0f9a9799c11f77e280588887db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:42 +0000
Subject: [PATCH 38/66] fix: make the output the same each time

---
 src/elf/symbol_table.rs | 10 +++++-----
 src/lib.rs              |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index a53a912..b02bdf1 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
 use std::ops::Index;
 use std::{
     cmp::Ordering,
-    collections::{hash_map::Entry, HashMap},
+    collections::{btree_map::Entry, BTreeMap, HashMap},
     mem::size_of,
     path::{Path, PathBuf},
 };
@@ -22,7 +22,7 @@ use super::{
 };
 
 /// A symbol can be fetched by indexing `symbols` in the following way: `symbols[st_name]`.
-#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub enum SymbolRef {
     Named(u32),
     // section + number
@@ -61,7 +61,7 @@ pub enum Error {
 
 #[derive(Debug)]
 pub struct SymbolTable<'p> {
-    symbols: HashMap<u32, Symbol<'p>>,
+    symbols: BTreeMap<u32, Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
     locals: Vec<Symbol<'p>>,
     num_locals: usize,
@@ -242,11 +242,11 @@ impl<'p> SymbolTable<'p> {
         self.num_locals
     }
 
-    pub fn named(&self) -> &HashMap<u32, Symbol<'_>> {
+    pub fn named(&self) -> &BTreeMap<u32, Symbol<'_>> {
         &self.symbols
     }
 
-    pub fn named_mut(&mut self) -> &mut HashMap<u32, Symbol<'p>> {
+    pub fn named_mut(&mut self) -> &mut BTreeMap<u32, Symbol<'p>> {
         &mut self.symbols
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 58f6199..ba12621 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,7 +18,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap},
     fs::read,
     path::{Path, PathBuf},
 };
@@ -150,7 +150,7 @@ impl Linker {
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+            symbols.iter().map(|s| (*s, false)).collect::<BTreeMap<elf::SymbolRef, bool>>();
         for ((lib, _), used) in self.options.shared_libs.iter().zip(used) {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
@@ -205,13 +205,13 @@ impl Linker {
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+            symbols.iter().map(|s| (*s, false)).collect::<BTreeMap<elf::SymbolRef, bool>>();
         for ar in &self.archives {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
             let index = get_archive_index(&ar, &data).map_path_err(path)?;
-            let mut members = HashSet::new();
+            let mut members = BTreeSet::new();
             // a weak reference doesn't need a definition, so it isn't a reason to load a member
             for entry in undefines.iter_mut().filter(|(s, _)| !writer.is_weak(**s)) {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
-- 
2.43.0


From 5500e7e955444a5201ef193ec3d6a5759564e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:12 +0000
Subject: [PATCH 39/66] fix: search all archives for a reference which is no
 longer weak

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba12621..248fa0d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -206,14 +206,16 @@ impl Linker {
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
             symbols.iter().map(|s| (*s, false)).collect::<BTreeMap<elf::SymbolRef, bool>>();
+        // a weak reference doesn't need a definition, so it isn't a reason to load a member (if
+        // a member needs the symbol after all, then the archives are searched again)
+        let weak = symbols.iter().filter(|s| writer.is_weak(**s)).copied().collect::<BTreeSet<_>>();
         for ar in &self.archives {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
             let index = get_archive_index(&ar, &data).map_path_err(path)?;
             let mut members = BTreeSet::new();
-            // a weak reference doesn't need a definition, so it isn't a reason to load a member
-            for entry in undefines.iter_mut().filter(|(s, _)| !writer.is_weak(**s)) {
+            for entry in undefines.iter_mut().filter(|(s, _)| !weak.contains(s)) {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
                     name
                 } else {
-- 
2.43.0


From 92eec9c246b168d889b4da290406e602736e9d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:01:42 +0000
Subject: [PATCH 40/66] fix: drop what groups and orders the sections of the
 input

---
 src/elf.rs | 14 ++++++++------
 src/lib.rs |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 86bd3b1..eae69e5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -6,9 +6,9 @@ use goblin::elf64::{
     program_header::{ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR},
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
-        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_INFO_LINK, SHF_LINK_ORDER,
+        SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH,
+        SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -409,13 +409,15 @@ impl<'d> Writer<'d> {
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
         let (section, chunk) = if entry.new {
+            // how the sections of the input relate to each other says nothing about the output
+            let relations = (SHF_GROUP | SHF_LINK_ORDER | SHF_INFO_LINK) as u64;
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-                sh_flags: sh.sh_flags as u64,
+                sh_flags: sh.sh_flags as u64 & !relations,
                 sh_size: sh.sh_size,
-                sh_link: sh.sh_link,
-                sh_info: sh.sh_info,
+                sh_link: 0,
+                sh_info: 0,
                 sh_entsize: sh.sh_entsize,
                 sh_addralign: sh.sh_addralign,
                 // patched later on
diff --git a/src/lib.rs b/src/lib.rs
index 248fa0d..b330360 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,8 +12,8 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
-            SHT_SYMTAB,
+            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_REL, SHT_RELA, SHT_SHLIB,
+            SHT_STRTAB, SHT_SYMTAB,
         },
     },
 };
@@ -24,7 +24,7 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB, SHT_GROUP];
 
 /// More than anything that is useful, what's in between is written to the output.
 const MAX_ALIGNMENT: u64 = 1 << 28;
-- 
2.43.0


From 78653f02632fca5dc5bb576f165690984bc23b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:05 +0000
Subject: [PATCH 41/66] fix: reject sections named like the linker's own

---
 src/elf.rs | 28 ++++++++++++++++++++++++++--
 src/lib.rs | 26 +++++++++++++++++---------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index eae69e5..b386521 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -70,6 +70,25 @@ const PLT_ENTRY_PUSH_INSTR_SIZE: usize = 5;
 // The PLT header is just as big.
 const PLT_ENTRY_SIZE: usize = 16;
 
+/// The sections which are only made by the linker itself.
+const OWN_SECTIONS: &[&str] = &[
+    "",
+    ".shstrtab",
+    ".strtab",
+    ".dynstr",
+    ".got",
+    ".got.plt",
+    ".plt",
+    ".symtab",
+    ".dynsym",
+    ".dynamic",
+    ".rela.dyn",
+    ".rela.plt",
+    ".copyrel",
+    ".hash",
+    ".gnu.hash",
+];
+
 #[derive(Clone, Copy, Debug)]
 pub enum DynTag {
     /// Marks end of dynamic section
@@ -459,9 +478,14 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
+        let name = name.into();
+        // there is nowhere to put the contents of e.g. another symbol table
+        if OWN_SECTIONS.contains(&(&name as &str)) {
+            return Err(ErrorType::Other(format!("section name {:?} is reserved", &name as &str)));
+        }
         let data = data.map(|v| v.to_owned());
-        self.add_section(name, section, data)
+        Ok(self.add_section(name, section, data))
     }
 
     fn add_symbol_inner<'s>(
diff --git a/src/lib.rs b/src/lib.rs
index b330360..0daefa7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,8 +12,8 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_REL, SHT_RELA, SHT_SHLIB,
-            SHT_STRTAB, SHT_SYMTAB,
+            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA,
+            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
     },
 };
@@ -23,8 +23,17 @@ use std::{
     path::{Path, PathBuf},
 };
 
-const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB, SHT_GROUP];
+const SKIPPED_SECTIONS: &[u32] = &[
+    SHT_NULL,
+    SHT_SYMTAB,
+    SHT_DYNSYM,
+    SHT_STRTAB,
+    SHT_RELA,
+    SHT_DYNAMIC,
+    SHT_REL,
+    SHT_SHLIB,
+    SHT_GROUP,
+];
 
 /// More than anything that is useful, what's in between is written to the output.
 const MAX_ALIGNMENT: u64 = 1 << 28;
@@ -71,11 +80,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let msg = format!("{} has invalid alignment {}", name, section.sh_addralign);
                 return Err(Error::new(self.input.path, msg));
             }
-            let section_ref = writer.push_section(
-                name.to_owned(),
-                section,
-                section.file_range().map(|r| &self.input.data[r]),
-            );
+            let data = section.file_range().map(|r| &self.input.data[r]);
+            let section_ref = writer
+                .push_section(name.to_owned(), section, data)
+                .map_path_err(self.input.path)?;
             log::trace!(
                 "Section '{}:{}' of {:?} mapped to {:?}",
                 i,
-- 
2.43.0


From 1a7a9b5a88dcdbe9b8144c340b956d0b920538cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:14 +0000
Subject: [PATCH 42/66] fix: compute R_X86_64_GOT32 relative to the global
 offset table

---
 src/elf.rs       | 9 ++++++++-
 src/elf/chunk.rs | 9 ++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b386521..d5a3f7a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1035,6 +1035,7 @@ impl<'d> Writer<'d> {
 
     fn handle_relocations(&mut self) {
         let got_address = self.got_address();
+        let got_plt_address = self.got_plt_address();
         let plt_address = self.plt_address();
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
 
@@ -1051,7 +1052,13 @@ impl<'d> Writer<'d> {
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
             for chunk in section.write().chunks_mut() {
-                chunk.apply_relocations(got_address, plt_address, &symbols, &dyn_symbols);
+                chunk.apply_relocations(
+                    got_address,
+                    got_plt_address,
+                    plt_address,
+                    &symbols,
+                    &dyn_symbols,
+                );
             }
         }
     }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index ba81b1e..b382bda 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -91,6 +91,7 @@ impl Chunk {
     pub fn apply_relocations(
         &mut self,
         got_address: u64,
+        got_plt_address: u64,
         plt_address: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
@@ -103,6 +104,7 @@ impl Chunk {
                 table.get(*symbol_ref).unwrap(),
                 dyn_table,
                 got_address,
+                got_plt_address,
                 plt_address,
             );
         }
@@ -153,6 +155,7 @@ fn apply_relocation(
     symbol: &crate::elf::Symbol<'_>,
     dyn_table: &SymbolTable,
     got_address: u64,
+    got_plt_address: u64,
     plt_address: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
@@ -186,9 +189,9 @@ fn apply_relocation(
             .unwrap(),
         R_X86_64_GOT32 => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
-            (&mut data[offset..])
-                .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
-                .unwrap()
+            // relative to `_GLOBAL_OFFSET_TABLE_`
+            let value = (g + got - got_plt_address as i64).wrapping_add(a);
+            (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap()
         }
         R_X86_64_GOTPCRELX if symbol.dynamic().is_none() && is_rewritable(data, rel) => {
             // -2 because the offset points to where we need to patch, but we want to
-- 
2.43.0


From f3909c491aa1400437282c9bc375bd752d243b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:45 +0000
Subject: [PATCH 43/66] fix: reject sections of types which only linked files
 have

---
 src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0daefa7..38c640e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,8 +12,9 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA,
-            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GNU_HASH, SHT_GNU_VERDEF,
+            SHT_GNU_VERNEED, SHT_GNU_VERSYM, SHT_GROUP, SHT_HASH, SHT_NULL, SHT_REL, SHT_RELA,
+            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB, SHT_SYMTAB_SHNDX,
         },
     },
 };
@@ -35,6 +36,16 @@ const SKIPPED_SECTIONS: &[u32] = &[
     SHT_GROUP,
 ];
 
+/// What has a meaning of its own, which a copy of it wouldn't have.
+const UNSUPPORTED_SECTIONS: &[u32] = &[
+    SHT_HASH,
+    SHT_GNU_HASH,
+    SHT_GNU_VERDEF,
+    SHT_GNU_VERNEED,
+    SHT_GNU_VERSYM,
+    SHT_SYMTAB_SHNDX,
+];
+
 /// More than anything that is useful, what's in between is written to the output.
 const MAX_ALIGNMENT: u64 = 1 << 28;
 
@@ -76,6 +87,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
+            if UNSUPPORTED_SECTIONS.contains(&section.sh_type) {
+                let msg = format!("{} has unsupported type {}", name, section.sh_type);
+                return Err(Error::new(self.input.path, msg));
+            }
             if !is_valid_alignment(section.sh_addralign) {
                 let msg = format!("{} has invalid alignment {}", name, section.sh_addralign);
                 return Err(Error::new(self.input.path, msg));
-- 
2.43.0


From e4566580d55bcc3c98e5259f8748c95ecf42adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:29 +0000
Subject: [PATCH 44/66] fix: load each archive member at most once

---
 src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 38c640e..9441e71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,6 +225,7 @@ impl Linker {
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        loaded: &mut BTreeSet<(usize, usize)>,
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
@@ -232,7 +233,7 @@ impl Linker {
         // a weak reference doesn't need a definition, so it isn't a reason to load a member (if
         // a member needs the symbol after all, then the archives are searched again)
         let weak = symbols.iter().filter(|s| writer.is_weak(**s)).copied().collect::<BTreeSet<_>>();
-        for ar in &self.archives {
+        for (i, ar) in self.archives.iter().enumerate() {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
@@ -244,12 +245,17 @@ impl Linker {
                 } else {
                     continue;
                 };
-                if let Some(member) = index.get(&*name) {
-                    *entry.1 = true;
-                    members.insert(*member);
+                // the index may be wrong about a member, which we must not load again for that
+                match index.get(&*name) {
+                    Some(member) if !loaded.contains(&(i, *member)) => {
+                        *entry.1 = true;
+                        members.insert(*member);
+                    }
+                    _ => {}
                 }
             }
             for member in members {
+                loaded.insert((i, member));
                 let object = ar.get_at(member).unwrap();
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
@@ -289,11 +295,13 @@ impl Linker {
             elf.process_relocations(&mut writer)?;
         }
         let mut used = vec![false; self.options.shared_libs.len()];
+        let mut loaded = BTreeSet::new();
         let mut undefined = writer.undefined_symbols();
         loop {
             let undefined_next =
                 self.find_undefined_symbols_in_libs(&undefined, &mut used, &mut writer)?;
-            let undefined_next = self.process_archives_containing(&undefined_next, &mut writer)?;
+            let undefined_next =
+                self.process_archives_containing(&undefined_next, &mut loaded, &mut writer)?;
             // if the length doesn't change, it means we haven't found any of our symbols
             if undefined.len() == undefined_next.len() {
                 break;
-- 
2.43.0


From dffe1460092351cb716c283610e9b7ef032c7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:25 +0000
Subject: [PATCH 45/66] fix: reject images which don't fit into the address
 space

---
 src/elf.rs       | 11 ++++++++++-
 src/elf/chunk.rs |  2 ++
 src/lib.rs       | 17 ++++++++++++++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index d5a3f7a..835e026 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1071,11 +1071,16 @@ impl<'d> Writer<'d> {
     // section header 1
     // section header 2
     // ...
-    pub fn compute_sections(&mut self) {
+    pub fn compute_sections(&mut self) -> Result<(), ErrorType> {
         self.allocate_commons();
 
         self.assign_section_addresses();
 
+        if self.p_vaddr > MAX_ADDRESS {
+            let msg = format!("image is too big, it would end at {:#x}", self.p_vaddr);
+            return Err(ErrorType::Other(msg));
+        }
+
         self.handle_special_symbols();
 
         self.handle_relocations();
@@ -1102,6 +1107,7 @@ impl<'d> Writer<'d> {
         ph.p_filesz = ph.p_memsz;
         ph.p_vaddr = self.eh.e_phoff + self.start_p_vaddr;
         ph.p_paddr = ph.p_vaddr;
+        Ok(())
     }
 
     pub fn write_to_disk(mut self) {
@@ -1284,6 +1290,9 @@ const fn round_to(val: u64, multiple: u64) -> u64 {
 
 const PAGE_ALIGNMENT: u64 = 0x1000;
 
+/// The end of the address space of a process.
+const MAX_ADDRESS: u64 = 0x7fff_ffff_f000;
+
 fn get_load_program_header(
     sh: &mut Section,
     file_offset: &mut u64,
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index b382bda..1572266 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -38,6 +38,8 @@ impl Chunk {
 
     /// Turns the zeroes of the chunk into data.
     pub fn materialize(&mut self) {
+        // unlike `resize`, this can fail without taking down the whole process
+        self.data.try_reserve_exact(self.zeroes as usize).unwrap();
         self.data.resize(self.size() as usize, 0);
         self.zeroes = 0;
     }
diff --git a/src/lib.rs b/src/lib.rs
index 9441e71..db7f85b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,6 +49,9 @@ const UNSUPPORTED_SECTIONS: &[u32] = &[
 /// More than anything that is useful, what's in between is written to the output.
 const MAX_ALIGNMENT: u64 = 1 << 28;
 
+/// Many times more than fits next to the code which refers to it.
+const MAX_SIZE: u64 = 1 << 40;
+
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -95,6 +98,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let msg = format!("{} has invalid alignment {}", name, section.sh_addralign);
                 return Err(Error::new(self.input.path, msg));
             }
+            if section.sh_size > MAX_SIZE {
+                let msg = format!("{} has invalid size {}", name, section.sh_size);
+                return Err(Error::new(self.input.path, msg));
+            }
             let data = section.file_range().map(|r| &self.input.data[r]);
             let section_ref = writer
                 .push_section(name.to_owned(), section, data)
@@ -120,6 +127,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let msg = format!("{} has invalid alignment {}", name, symbol.st_value);
                 return Err(Error::new(self.input.path, msg));
             }
+            if symbol.st_shndx == SHN_COMMON as usize && symbol.st_size > MAX_SIZE {
+                let msg = format!("{} has invalid size {}", name, symbol.st_size);
+                return Err(Error::new(self.input.path, msg));
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
@@ -188,6 +199,10 @@ impl Linker {
                 for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != SHN_UNDEF as usize) {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
+                        if sym.st_size > MAX_SIZE {
+                            let msg = format!("{} has invalid size {}", name, sym.st_size);
+                            return Err(Error::new(path, msg));
+                        }
                         *entry.1 = true;
                         // not known if the library has no section headers
                         let alignment =
@@ -310,7 +325,7 @@ impl Linker {
             }
         }
         self.add_needed_libs(&used, &mut writer)?;
-        writer.compute_sections();
+        writer.compute_sections().map_path_err(self.options.output.as_path())?;
         let mut undefined = writer.undefined_symbols();
         undefined.retain(|s| !writer.is_weak(*s));
         if !undefined.is_empty() {
-- 
2.43.0


From d7eaf28b4bfd1dc30a677260d5567f106bab6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:01 +0000
Subject: [PATCH 46/66] fix: keep what isn't loaded behind everything that is

---
 src/elf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 835e026..87766ac 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1419,7 +1419,9 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
             } else if s2.sh_flags == 0 {
                 Ordering::Less
             } else {
-                o
+                // the headers come before the first section which is loaded
+                let alloc = |s: &SectionHeader| s.sh_flags & SHF_ALLOC as u64;
+                alloc(&s1).cmp(&alloc(&s2)).reverse().then(o)
             }
         }
     }
-- 
2.43.0


From df79b192ca610869ad1afb7ff652a8dc8c925d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:59:14 +0000
Subject: [PATCH 47/66] fix: let all names of a copied object refer to the copy

---
 src/elf.rs              | 73 ++++++++++++++++++++++++++++++++---------
 src/elf/copy_rel.rs     |  4 +--
 src/elf/symbol_table.rs | 14 ++++++++
 src/lib.rs              | 37 +++++++++++++++++++++
 src/symbol.rs           | 11 +++++++
 5 files changed, 122 insertions(+), 17 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 87766ac..dcbd31f 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -18,7 +18,7 @@ use parking_lot::{
 };
 use std::{
     cmp::Ordering,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     convert::TryInto,
     fs::File,
     io::Write,
@@ -546,6 +546,7 @@ impl<'d> Writer<'d> {
             a if section_alignment.is_power_of_two() => section_alignment.min(a),
             a => a,
         };
+        let address = elf_sym.st_value;
         elf_sym.st_shndx = SHN_UNDEF as u16;
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
@@ -560,21 +561,56 @@ impl<'d> Writer<'d> {
             let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
             let dyn_sym = dyn_symbols.get_mut(dyn_ref).unwrap();
             dyn_sym.set_alignment(dyn_sym.alignment().max(alignment));
+            dyn_sym.set_library_address(address);
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
             {
-                self.sym_section
+                if let Some(sym) = self
+                    .sym_section
                     .write()
                     .inner_mut::<SymbolTable<'d>>()
                     .unwrap()
                     .get_mut(SymbolRef::Named(entry.offset as u32))
-                    .unwrap()
-                    .set_dynamic(dyn_ref);
+                {
+                    sym.set_dynamic(dyn_ref);
+                }
             }
         }
         r.map(Some)
     }
 
+    /// The addresses of the objects of a shared library which we make copies of.
+    pub fn copied_addresses(&self, library: &Path) -> HashSet<u64> {
+        let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        as_sym_tab(&self.sym_section)
+            .named()
+            .values()
+            .filter_map(|s| s.dynamic().map(|d| &dyn_symbols[d]))
+            .filter(|s| s.is_object() && s.reference() == library)
+            .filter_map(|s| s.library_address())
+            .collect()
+    }
+
+    /// Another name of an object of a shared library which we make a copy of.
+    pub fn add_alias(
+        &mut self,
+        elf_sym: Sym,
+        section_alignment: u64,
+        name: &str,
+        reference: &'d Path,
+    ) -> Result<(), ErrorType> {
+        let is_dynamic = as_str_tab(&self.dyn_sym_str_section).get(name.to_string()).map_or(false, |s| {
+            as_sym_tab(&self.dyn_sym_section).get(SymbolRef::Named(s.offset as u32)).is_some()
+        });
+        let is_ours = as_str_tab(&self.sym_str_section).get(name.to_string()).map_or(false, |s| {
+            as_sym_tab(&self.sym_section).get(SymbolRef::Named(s.offset as u32)).is_some()
+        });
+        if is_dynamic || is_ours {
+            return Ok(());
+        }
+        self.add_dyn_symbol(elf_sym, section_alignment, name, reference).map(|_| ())
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -992,18 +1028,25 @@ impl<'d> Writer<'d> {
                 if let Some(offset) = sym.got_offset() {
                     self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
                 }
-                let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
-                if dyn_symbol.is_object() {
-                    let size = dyn_symbol.st_size;
-                    let alignment = dyn_symbol.alignment();
-                    let offset = self
-                        .copy_rel_section
-                        .write()
-                        .inner_mut::<CopyRel>()
-                        .unwrap()
-                        .insert(dyn_sym, size, alignment);
+                let mut section = self.copy_rel_section.write();
+                let copies = section.inner_mut::<CopyRel>().unwrap();
+                if dyn_syms[dyn_sym].is_object() && !copies.contains(dyn_sym) {
+                    // all names of the object have to refer to the copy
+                    let names = dyn_syms.names_of_object(dyn_sym);
+                    let mut largest = dyn_sym;
+                    for name in &names {
+                        if dyn_syms[*name].st_size > dyn_syms[largest].st_size {
+                            largest = *name;
+                        }
+                    }
+                    let size = dyn_syms[largest].st_size;
+                    let alignment = dyn_syms[largest].alignment();
+                    let offset = copies.insert(&names, size, alignment);
+                    let index = dyn_sym_indices[&largest.st_name()];
                     self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
-                    dyn_symbol.st_value = offset;
+                    for name in names {
+                        dyn_syms.get_mut(name).unwrap().st_value = offset;
+                    }
                 }
                 if let Some(offset) = sym.got_plt_offset() {
                     sym.set_relocation_offset(self.plt_rels.len());
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 0e646aa..58fa4fd 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -19,9 +19,9 @@ pub struct CopyRel {
 }
 
 impl CopyRel {
-    pub fn insert(&mut self, sym: SymbolRef, size: u64, alignment: u64) -> u64 {
+    pub fn insert(&mut self, names: &[SymbolRef], size: u64, alignment: u64) -> u64 {
         let offset = round_to(self.size, alignment);
-        self.slots.insert(sym, offset);
+        self.slots.extend(names.iter().map(|sym| (*sym, offset)));
         self.size = offset + size;
         self.alignment = self.alignment.max(alignment);
         offset
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index b02bdf1..1e4cf6b 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -250,6 +250,20 @@ impl<'p> SymbolTable<'p> {
         &mut self.symbols
     }
 
+    /// All symbols of the object of a shared library that `sym` refers to.
+    pub fn names_of_object(&self, sym: SymbolRef) -> Vec<SymbolRef> {
+        let object = &self[sym];
+        self.symbols
+            .iter()
+            .filter(|(_, s)| {
+                s.is_object()
+                    && s.reference() == object.reference()
+                    && s.library_address() == object.library_address()
+            })
+            .map(|(name, _)| SymbolRef::Named(*name))
+            .collect()
+    }
+
     /// Updates all symbols of copied objects to point to `.copyrel`.
     /// Note: This assumes that `st_value`s already have the correct offsets
     /// into `.copyrel`.
diff --git a/src/lib.rs b/src/lib.rs
index db7f85b..1dbaf97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,6 +16,7 @@ use goblin::{
             SHT_GNU_VERNEED, SHT_GNU_VERSYM, SHT_GROUP, SHT_HASH, SHT_NULL, SHT_REL, SHT_RELA,
             SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB, SHT_SYMTAB_SHNDX,
         },
+        sym::{STB_LOCAL, STT_OBJECT},
     },
 };
 use std::{
@@ -219,6 +220,41 @@ impl Linker {
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
 
+    /// Finds the other names of the objects which we make copies of.
+    fn add_aliases<'o>(
+        &'o self,
+        used: &[bool],
+        writer: &mut elf::Writer<'o>,
+    ) -> Result<(), Error<'o>> {
+        let mut found = BTreeSet::new();
+        for ((lib, as_needed), used) in self.options.shared_libs.iter().zip(used) {
+            if *as_needed && !*used {
+                continue;
+            }
+            let path = lib.as_path();
+            let data = read(path).map_path_err(path)?;
+            let elf = Elf::parse(&data).map_path_err(path)?;
+            let addresses = writer.copied_addresses(path);
+            for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != SHN_UNDEF as usize) {
+                let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
+                let is_alias = sym.st_type() == STT_OBJECT
+                    && sym.st_bind() != STB_LOCAL
+                    && addresses.contains(&sym.st_value);
+                // if several libraries define a symbol, then the first one wins
+                if found.insert(name.to_string()) && is_alias {
+                    if sym.st_size > MAX_SIZE {
+                        let msg = format!("{} has invalid size {}", name, sym.st_size);
+                        return Err(Error::new(path, msg));
+                    }
+                    let alignment =
+                        elf.section_headers.get(sym.st_shndx).map_or(0, |s| s.sh_addralign);
+                    writer.add_alias(sym.into(), alignment, name, path).map_path_err(path)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn add_needed_libs<'o>(
         &'o self,
         used: &[bool],
@@ -324,6 +360,7 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        self.add_aliases(&used, &mut writer)?;
         self.add_needed_libs(&used, &mut writer)?;
         writer.compute_sections().map_path_err(self.options.output.as_path())?;
         let mut undefined = writer.undefined_symbols();
diff --git a/src/symbol.rs b/src/symbol.rs
index 39ff72b..c537bb6 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -24,6 +24,8 @@ pub struct Symbol<'r> {
     dynamic: Option<SymbolRef>,
     // what a copy of an object of a shared library has to be aligned to
     alignment: u64,
+    // where it is in its shared library
+    library_address: Option<u64>,
 }
 
 impl<'r> Symbol<'r> {
@@ -40,6 +42,7 @@ impl<'r> Symbol<'r> {
             relocation_offset: None,
             dynamic: None,
             alignment: 1,
+            library_address: None,
         }
     }
 
@@ -115,6 +118,14 @@ impl<'r> Symbol<'r> {
         self.alignment = alignment;
     }
 
+    pub const fn library_address(&self) -> Option<u64> {
+        self.library_address
+    }
+
+    pub fn set_library_address(&mut self, address: u64) {
+        self.library_address = Some(address);
+    }
+
     /// Whether the address of a function of a shared library is used directly.
     pub const fn is_address_taken(&self) -> bool {
         self.address_taken
-- 
2.43.0


From 35a5458a57d96da81015f83dabd47a7f0ed4c764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:19 +0000
Subject: [PATCH 48/66] fix: accept + and ~ in the file names of linker scripts

---
 src/linker_script.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 7812c35..c967b42 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -4,13 +4,13 @@ use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
 use combine::{attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
 
-/// Parses an argument like: 'foo.so' or `/lib/foo.so'.
+/// Parses an argument like: 'foo.so' or `/lib/libfoo++.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    many1(choice((alpha_num(), char('-'), char('.'), char('_'), char('/'))))
+    many1(choice((alpha_num(), char('-'), char('.'), char('_'), char('/'), char('+'), char('~'))))
 }
 /// Parses a comment like: /* hey \n second line */
 pub fn parse_comment<Input>() -> impl Parser<Input, Output = ()>
-- 
2.43.0


From a2c3f34d08d2bd57bc87f93efd10d4d46ec63871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:47 +0000
Subject: [PATCH 49/66] fix: report more sections than an ELF file can have

---
 src/elf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index dcbd31f..c55b2cf 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_INFO_LINK, SHF_LINK_ORDER,
-        SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH,
-        SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SHF_WRITE, SHN_ABS, SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY,
+        SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -1115,6 +1115,12 @@ impl<'d> Writer<'d> {
     // section header 2
     // ...
     pub fn compute_sections(&mut self) -> Result<(), ErrorType> {
+        // larger indexes have a meaning of their own
+        if self.sections.len() >= SHN_LORESERVE as usize {
+            let msg = format!("too many sections for an ELF file: {}", self.sections.len());
+            return Err(ErrorType::Other(msg));
+        }
+
         self.allocate_commons();
 
         self.assign_section_addresses();
-- 
2.43.0


From 0fe9d7b76d3c10100b8322f6e1a65020cd5765d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:32 +0000
Subject: [PATCH 50/66] fix: give common symbols of the medium code model their
 storage

---
 src/elf.rs              | 14 +++++++++-----
 src/elf/symbol_table.rs |  4 ++++
 src/lib.rs              |  7 +++++--
 src/symbol.rs           | 10 +++++++++-
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c55b2cf..9026b44 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -888,24 +888,25 @@ impl<'d> Writer<'d> {
         }
     }
 
-    /// Makes room in `.bss` for the symbols which are not in any section.
+    /// Makes room in `.bss` and `.lbss` for the symbols which are not in any section.
     fn allocate_commons(&mut self) {
         let mut commons = as_sym_tab(&self.sym_section)
             .named()
             .values()
             .filter(|s| s.is_common())
-            .map(|s| (s.st_name, s.st_size, s.st_value))
+            .map(|s| (s.st_name, s.st_size, s.st_value, s.is_large_common()))
             .collect::<Vec<_>>();
         commons.sort_unstable();
-        for (st_name, size, alignment) in commons {
+        for (st_name, size, alignment, large) in commons {
+            let (name, flags) = if large { (".lbss", SHF_X86_64_LARGE) } else { (".bss", 0) };
             let sh = goblin::elf::SectionHeader {
                 sh_type: SHT_NOBITS,
-                sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                sh_flags: (SHF_ALLOC | SHF_WRITE | flags) as u64,
                 sh_size: size,
                 sh_addralign: alignment,
                 ..Default::default()
             };
-            let SectionRef { section, chunk } = self.add_section(".bss", &sh, None);
+            let SectionRef { section, chunk } = self.add_section(name, &sh, None);
             let sym_ref = SymbolRef::Named(st_name);
             as_mut_sym_tab(&self.sym_section).get_mut(sym_ref).unwrap().st_value = 0;
             section.write().chunk_mut(chunk).add_symbol(sym_ref);
@@ -1339,6 +1340,9 @@ const fn round_to(val: u64, multiple: u64) -> u64 {
 
 const PAGE_ALIGNMENT: u64 = 0x1000;
 
+/// Marks what can be out of reach of the rest, in the medium code model.
+const SHF_X86_64_LARGE: u32 = 0x1000_0000;
+
 /// The end of the address space of a process.
 const MAX_ADDRESS: u64 = 0x7fff_ffff_f000;
 
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 1e4cf6b..cb61032 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -127,6 +127,10 @@ impl<'p> SymbolTable<'p> {
                     // `st_value` is the alignment
                     old_sym.st_value = old_sym.st_value.max(new_sym.st_value);
                     old_sym.st_size = old_sym.st_size.max(new_sym.st_size);
+                    if !new_sym.is_large_common() {
+                        // somebody expects it to be near
+                        old_sym.st_shndx = new_sym.st_shndx;
+                    }
                     return Ok((SymbolRef::Named(st_name), Outcome::Ignored));
                 }
                 let common = old_sym.is_common() || new_sym.is_common();
diff --git a/src/lib.rs b/src/lib.rs
index 1dbaf97..971f9cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,7 @@ mod serialize;
 mod utils;
 
 use error::{Error, ErrorExt, ErrorType};
+use symbol::SHN_X86_64_LCOMMON;
 use goblin::{
     archive::{Archive, Index, Member, SIZEOF_MAGIC},
     elf::Elf,
@@ -124,11 +125,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
-            if symbol.st_shndx == SHN_COMMON as usize && !is_valid_alignment(symbol.st_value) {
+            let common =
+                [SHN_COMMON as usize, SHN_X86_64_LCOMMON as usize].contains(&symbol.st_shndx);
+            if common && !is_valid_alignment(symbol.st_value) {
                 let msg = format!("{} has invalid alignment {}", name, symbol.st_value);
                 return Err(Error::new(self.input.path, msg));
             }
-            if symbol.st_shndx == SHN_COMMON as usize && symbol.st_size > MAX_SIZE {
+            if common && symbol.st_size > MAX_SIZE {
                 let msg = format!("{} has invalid size {}", name, symbol.st_size);
                 return Err(Error::new(self.input.path, msg));
             }
diff --git a/src/symbol.rs b/src/symbol.rs
index c537bb6..00c09f1 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -10,6 +10,9 @@ use goblin::elf64::{
     sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
 };
 
+/// A common symbol of the medium code model.
+pub const SHN_X86_64_LCOMMON: u16 = 0xff02;
+
 #[derive(Debug, Clone, Copy)]
 pub struct Symbol<'r> {
     pub sym: Sym,
@@ -79,7 +82,12 @@ impl<'r> Symbol<'r> {
     }
 
     pub const fn is_common(&self) -> bool {
-        self.sym.st_shndx == SHN_COMMON as u16
+        self.sym.st_shndx == SHN_COMMON as u16 || self.is_large_common()
+    }
+
+    /// Whether the symbol is a common one which can be out of reach of the rest.
+    pub const fn is_large_common(&self) -> bool {
+        self.sym.st_shndx == SHN_X86_64_LCOMMON
     }
 
     pub const fn reference(&self) -> &Path {
-- 
2.43.0


From 1b47835791955225284f4ff22294494deded0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:33 +0000
Subject: [PATCH 51/66] fix: reject inputs which are for another machine

---
 src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 971f9cc..91cd118 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,7 @@ use goblin::{
     archive::{Archive, Index, Member, SIZEOF_MAGIC},
     elf::Elf,
     elf64::{
+        header::{EM_X86_64, ET_DYN},
         reloc::Rela,
         section_header::{
             SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GNU_HASH, SHT_GNU_VERDEF,
@@ -69,7 +70,7 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 
 impl<'p, 'd> Input<'p, 'd> {
     fn to_elf_object<'i>(&'i self) -> Result<ElfObject<'i, 'p, '_, 'i>, Error<'p>> {
-        let elf = Elf::parse(self.data).map_path_err(self.path)?;
+        let elf = parse_elf(self.path, self.data)?;
         if !elf.is_object_file() {
             return Err(Error::new(self.path, "not an object file".to_string()));
         }
@@ -192,7 +193,10 @@ impl Linker {
         for ((lib, _), used) in self.options.shared_libs.iter().zip(used) {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).unwrap();
+            let elf = parse_elf(path, &data)?;
+            if elf.header.e_type != ET_DYN {
+                return Err(Error::new(path, "not a shared library".to_string()));
+            }
             for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
                     name.to_string()
@@ -381,6 +385,15 @@ impl Linker {
     }
 }
 
+/// Parses a file for the only machine that we know.
+fn parse_elf<'p, 'd>(path: &'p Path, data: &'d [u8]) -> Result<Elf<'d>, Error<'p>> {
+    let elf = Elf::parse(data).map_path_err(path)?;
+    if elf.header.e_machine != EM_X86_64 || !elf.is_64 || !elf.little_endian {
+        return Err(Error::new(path, "not for x86-64".to_string()));
+    }
+    Ok(elf)
+}
+
 fn is_valid_alignment(alignment: u64) -> bool {
     alignment == 0 || (alignment.is_power_of_two() && alignment <= MAX_ALIGNMENT)
 }
-- 
2.43.0


From 55d260b61b41a7192214269ae8c2412a932c6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:31 +0000
Subject: [PATCH 52/66] fix: reject symbols in sections which don't exist

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 91cd118..1ebb731 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,7 +14,7 @@ use goblin::{
         header::{EM_X86_64, ET_DYN},
         reloc::Rela,
         section_header::{
-            SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GNU_HASH, SHT_GNU_VERDEF,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GNU_HASH, SHT_GNU_VERDEF,
             SHT_GNU_VERNEED, SHT_GNU_VERSYM, SHT_GROUP, SHT_HASH, SHT_NULL, SHT_REL, SHT_RELA,
             SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB, SHT_SYMTAB_SHNDX,
         },
@@ -128,6 +128,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let common =
                 [SHN_COMMON as usize, SHN_X86_64_LCOMMON as usize].contains(&symbol.st_shndx);
+            let exists = common
+                || symbol.st_shndx == SHN_ABS as usize
+                || symbol.st_shndx < elf.section_headers.len();
+            if !exists {
+                let msg = format!("{} is in missing section {}", name, symbol.st_shndx);
+                return Err(Error::new(self.input.path, msg));
+            }
             if common && !is_valid_alignment(symbol.st_value) {
                 let msg = format!("{} has invalid alignment {}", name, symbol.st_value);
                 return Err(Error::new(self.input.path, msg));
-- 
2.43.0


From b098bd442847f5d7dfd77143afecfc780c2a2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:32 +0000
Subject: [PATCH 53/66] fix: reject relocations of sections or with symbols
 which don't exist

---
 src/lib.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ebb731..173520e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,26 +156,23 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
+        let path = self.input.path;
         for (section_index, rels) in &elf.shdr_relocs {
             // `sh_info` is the section to which the relocations apply
             let target = elf.section_headers[*section_index].sh_info as usize;
+            let index = self.section_relocations.get(&target).ok_or_else(|| {
+                Error::new(path, format!("relocations for missing section {}", target))
+            })?;
             for rel in rels.iter() {
-                let index = if let Some(sec) = self.section_relocations.get(&target) {
-                    sec.clone()
-                } else {
-                    continue;
-                };
-                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
-                    sym
-                } else {
-                    continue;
-                };
+                let symbol = self.symbols.get(&rel.r_sym).ok_or_else(|| {
+                    Error::new(path, format!("relocation with missing symbol {}", rel.r_sym))
+                })?;
                 let rela = Rela {
                     r_offset: rel.r_offset,
                     r_info: ((rel.r_sym << 32) + rel.r_type as usize) as u64,
                     r_addend: rel.r_addend.unwrap_or_default() as i64,
                 };
-                writer.add_relocation(rela, *symbol, index).map_path_err(self.input.path)?;
+                writer.add_relocation(rela, *symbol, index.clone()).map_path_err(path)?;
             }
         }
         Ok(())
-- 
2.43.0


From cdda4397840f95be07d93583b5dac48b78031db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:33 +0000
Subject: [PATCH 54/66] fix: reject relocations without addends

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 173520e..df561dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,7 +34,6 @@ const SKIPPED_SECTIONS: &[u32] = &[
     SHT_STRTAB,
     SHT_RELA,
     SHT_DYNAMIC,
-    SHT_REL,
     SHT_SHLIB,
     SHT_GROUP,
 ];
@@ -47,6 +46,7 @@ const UNSUPPORTED_SECTIONS: &[u32] = &[
     SHT_GNU_VERNEED,
     SHT_GNU_VERSYM,
     SHT_SYMTAB_SHNDX,
+    SHT_REL,
 ];
 
 /// More than anything that is useful, what's in between is written to the output.
-- 
2.43.0


From 51d545d33698010619aed6684d8d26a2f9ec871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:23 +0000
Subject: [PATCH 55/66] fix: reject relocations which reach out of their
 section

---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index df561dd..3b99296 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@ use goblin::{
     elf::Elf,
     elf64::{
         header::{EM_X86_64, ET_DYN},
-        reloc::Rela,
+        reloc::{Rela, R_X86_64_64, R_X86_64_NONE},
         section_header::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GNU_HASH, SHT_GNU_VERDEF,
             SHT_GNU_VERNEED, SHT_GNU_VERSYM, SHT_GROUP, SHT_HASH, SHT_NULL, SHT_REL, SHT_RELA,
@@ -167,6 +167,17 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let symbol = self.symbols.get(&rel.r_sym).ok_or_else(|| {
                     Error::new(path, format!("relocation with missing symbol {}", rel.r_sym))
                 })?;
+                let size = match rel.r_type {
+                    R_X86_64_NONE => 0,
+                    R_X86_64_64 => 8,
+                    _ => 4,
+                };
+                // what follows the section is not its own, even if it is only padding
+                let end = elf.section_headers[target].sh_size.checked_sub(size);
+                if !end.map_or(false, |end| rel.r_offset <= end) {
+                    let msg = format!("relocation at {:#x} is not in its section", rel.r_offset);
+                    return Err(Error::new(path, msg));
+                }
                 let rela = Rela {
                     r_offset: rel.r_offset,
                     r_info: ((rel.r_sym << 32) + rel.r_type as usize) as u64,
-- 
2.43.0


From 42c71c8a879506bd8b1873d1c216ade57b18804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:31 +0000
Subject: [PATCH 56/66] fix: reject section headers of another size

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b99296..0f4476b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,7 +16,7 @@ use goblin::{
         section_header::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GNU_HASH, SHT_GNU_VERDEF,
             SHT_GNU_VERNEED, SHT_GNU_VERSYM, SHT_GROUP, SHT_HASH, SHT_NULL, SHT_REL, SHT_RELA,
-            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB, SHT_SYMTAB_SHNDX,
+            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB, SHT_SYMTAB_SHNDX, SIZEOF_SHDR,
         },
         sym::{STB_LOCAL, STT_OBJECT},
     },
@@ -406,6 +406,10 @@ fn parse_elf<'p, 'd>(path: &'p Path, data: &'d [u8]) -> Result<Elf<'d>, Error<'p
     if elf.header.e_machine != EM_X86_64 || !elf.is_64 || !elf.little_endian {
         return Err(Error::new(path, "not for x86-64".to_string()));
     }
+    let entry_size = elf.header.e_shentsize as usize;
+    if !elf.section_headers.is_empty() && entry_size != SIZEOF_SHDR {
+        return Err(Error::new(path, format!("invalid section header size {}", entry_size)));
+    }
     Ok(elf)
 }
 
-- 
2.43.0


From 5be67e8c0de64cd0b866d8bdc2ddd6b514b30291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:32 +0000
Subject: [PATCH 57/66] fix: reject relocations with symbols of what is no
 symbol table

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f4476b..5525b3c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,7 +159,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let path = self.input.path;
         for (section_index, rels) in &elf.shdr_relocs {
             // `sh_info` is the section to which the relocations apply
-            let target = elf.section_headers[*section_index].sh_info as usize;
+            let header = &elf.section_headers[*section_index];
+            let target = header.sh_info as usize;
+            let symbols = elf.section_headers.get(header.sh_link as usize);
+            if !symbols.map_or(false, |sh| sh.sh_type == SHT_SYMTAB) {
+                let msg = format!("relocations with symbols of section {}", header.sh_link);
+                return Err(Error::new(path, msg));
+            }
             let index = self.section_relocations.get(&target).ok_or_else(|| {
                 Error::new(path, format!("relocations for missing section {}", target))
             })?;
-- 
2.43.0


From 6c5f04efdf0887a9949759374c76accd59c88f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:01 +0000
Subject: [PATCH 58/66] fix: don't overwrite an input with the output

---
 src/main.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a452688..8c1e09d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,7 +2,7 @@ use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
 use std::{
     io::{Read, Write},
-    path::PathBuf,
+    path::{Path, PathBuf},
     str::FromStr,
 };
 
@@ -48,6 +48,8 @@ struct AppArgs {
     /// The linker scripts which are currently being read.
     scripts: Vec<PathBuf>,
     inputs: Vec<(Input, bool)>,
+    /// All files that the inputs turned out to be.
+    files: Vec<PathBuf>,
     help: bool,
     as_needed: bool,
 }
@@ -60,6 +62,10 @@ fn main() -> Result<(), String> {
         return Ok(());
     }
     log::debug!("{:#?}", args);
+    let output = entry(&args.opts.output);
+    if let Some(file) = args.files.iter().find(|f| f.canonicalize().ok() == output) {
+        return Err(format!("`{}` is both an input and the output", file.display()));
+    }
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
     if let Err(e) = linker.link() {
         Err(format!("{}", e))
@@ -107,6 +113,13 @@ fn parse_args() -> Result<AppArgs, String> {
     Ok(app)
 }
 
+/// Where a file is, even if it is a link to another one.
+fn entry(path: &Path) -> Option<PathBuf> {
+    let dir = path.parent().filter(|dir| *dir != Path::new(""));
+    let dir = dir.unwrap_or_else(|| Path::new(".")).canonicalize().ok()?;
+    Some(dir.join(path.file_name()?))
+}
+
 fn handle_linker_args(
     args: &mut std::iter::Peekable<impl std::iter::Iterator<Item = String>>,
     app: &mut AppArgs,
@@ -235,6 +248,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
         };
         if let Some(lib) = found {
             let file_type = file_type(&lib).unwrap();
+            args.files.push(lib.clone());
             match file_type {
                 FileType::ElfObject => {
                     args.objects.push(lib.canonicalize().unwrap());
-- 
2.43.0


From 76454243783878e3000974275aa04be421d8f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:27 +0000
Subject: [PATCH 59/66] fix: announce .init_array and .fini_array of unspecific
 type

---
 src/elf.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 9026b44..506f55d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -425,6 +425,12 @@ impl<'d> Writer<'d> {
             name = array.into();
             chunk.set_priority(priority);
         }
+        // some tools don't know the types of their own
+        let sh_type = match (&name as &str, sh.sh_type) {
+            (".init_array", SHT_PROGBITS) => SHT_INIT_ARRAY,
+            (".fini_array", SHT_PROGBITS) => SHT_FINI_ARRAY,
+            (_, sh_type) => sh_type,
+        };
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
         let (section, chunk) = if entry.new {
@@ -432,7 +438,7 @@ impl<'d> Writer<'d> {
             let relations = (SHF_GROUP | SHF_LINK_ORDER | SHF_INFO_LINK) as u64;
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
-                sh_type: sh.sh_type,
+                sh_type,
                 sh_flags: sh.sh_flags as u64 & !relations,
                 sh_size: sh.sh_size,
                 sh_link: 0,
@@ -455,8 +461,8 @@ impl<'d> Writer<'d> {
             // a section is only NOBITS as long as none of its chunks have any data
             if section.sh_type != SHT_NOBITS {
                 chunk.materialize();
-            } else if sh.sh_type != SHT_NOBITS {
-                section.sh_type = sh.sh_type;
+            } else if sh_type != SHT_NOBITS {
+                section.sh_type = sh_type;
                 section.chunks_mut().iter_mut().for_each(Chunk::materialize);
             }
             // the padding of code has to be executable, e.g. `.init` runs from one end to the other
-- 
2.43.0


From bb91a3d514ba31bc2f2702976824b3b34e5c9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:02:02 +0000
Subject: [PATCH 60/66] fix: take symbols of BSD archives from the first member
 that defines them

---
 src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5525b3c..2b93113 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,18 +433,21 @@ fn get_archive_index<'a>(
         return Ok(index);
     }
     let first = Member::parse(data, &mut { SIZEOF_MAGIC })?;
-    if first.raw_name().trim_end() != "/" {
-        // not a System V archive
-        for (i, (_, _, symbols)) in ar.summarize().into_iter().enumerate() {
-            index.extend(symbols.into_iter().map(|s| (s, i)));
+    let parse = match (first.raw_name().trim_end(), first.extended_name()) {
+        ("/", _) => Index::parse_sysv_index,
+        (_, "__.SYMDEF") | (_, "__.SYMDEF SORTED") => Index::parse_bsd_symdef,
+        _ => {
+            for (i, (_, _, symbols)) in ar.summarize().into_iter().enumerate() {
+                index.extend(symbols.into_iter().map(|s| (s, i)));
+            }
+            return Ok(index);
         }
-        return Ok(index);
-    }
+    };
     let members = (0..ar.len())
         .map(|i| (ar.get_at(i).unwrap().header_offset, i))
         .collect::<HashMap<u64, usize>>();
     let start = first.offset as usize;
-    let symbols = Index::parse_sysv_index(&data[start..start + first.size()])?;
+    let symbols = parse(&data[start..start + first.size()])?;
     for (offset, symbol) in symbols.symbol_indexes.iter().zip(symbols.strtab) {
         if let Some(member) = members.get(&(*offset as u64)) {
             index.entry(symbol).or_insert(*member);
-- 
2.43.0


From 69417ae90cc90ff136c64441bd29fe03fa63e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:26 +0000
Subject: [PATCH 61/66] fix: join .init_array.NAME with .init_array

---
 src/elf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 506f55d..2df85f6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1489,8 +1489,9 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
 /// Splits the name of e.g. `.init_array.101`.
 fn array_priority(name: &str) -> Option<(&'static str, u32)> {
     [".init_array", ".fini_array"].iter().find_map(|array| {
-        let priority = name.strip_prefix(array)?.strip_prefix('.')?.parse().ok()?;
-        Some((*array, priority))
+        let priority = name.strip_prefix(array)?.strip_prefix('.')?;
+        // other parts of the array have names as well, but no priority
+        Some((*array, priority.parse().unwrap_or(u32::MAX)))
     })
 }
 
-- 
2.43.0


From 769577453257bd9ac67d8933e95bba5889512e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:27 +0000
Subject: [PATCH 62/66] fix: announce no other sections as .init_array or
 .fini_array

---
 src/elf.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 2df85f6..af5adc9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1401,7 +1401,10 @@ fn dyn_entries(names: &StringTable, sh: &SectionPtr) -> usize {
         ".rela.dyn" => 4,
         ".rela.plt" => 3,
         _ => match sh.sh_type {
-            SHT_DYNSYM | SHT_INIT_ARRAY | SHT_FINI_ARRAY => 2,
+            SHT_DYNSYM => 2,
+            // only one array can be announced, another section may have the type as well
+            SHT_INIT_ARRAY if name as &str == ".init_array" => 2,
+            SHT_FINI_ARRAY if name as &str == ".fini_array" => 2,
             SHT_STRTAB if sh.sh_flags & SHF_ALLOC as u64 == SHF_ALLOC as u64 => 2,
             SHT_HASH | SHT_GNU_HASH => 1,
             _ => 0,
@@ -1434,9 +1437,9 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
             SHT_STRTAB if sh.sh_flags & SHF_ALLOC as u64 == SHF_ALLOC as u64 => {
                 entries.extend(&[(DynTag::StrTab, sh.sh_addr), (DynTag::StrSize, sh.sh_size)])
             }
-            SHT_INIT_ARRAY => entries
+            SHT_INIT_ARRAY if name as &str == ".init_array" => entries
                 .extend(&[(DynTag::InitArray, sh.sh_addr), (DynTag::InitArraySize, sh.sh_size)]),
-            SHT_FINI_ARRAY => entries
+            SHT_FINI_ARRAY if name as &str == ".fini_array" => entries
                 .extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_size)]),
             SHT_HASH => entries.push((DynTag::Hash, sh.sh_addr)),
             SHT_GNU_HASH => entries.push((DynTag::GnuHash, sh.sh_addr)),
-- 
2.43.0


From 9016932e2ba8a8b8077c83296cdf97163dc44aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:28 +0000
Subject: [PATCH 63/66] fix: announce .preinit_array

---
 src/elf.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index af5adc9..935cb7d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,7 +8,8 @@ use goblin::elf64::{
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_INFO_LINK, SHF_LINK_ORDER,
         SHF_WRITE, SHN_ABS, SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY,
-        SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PREINIT_ARRAY, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -151,6 +152,10 @@ pub enum DynTag {
     FiniArraySize = 28,
     /// Library search path
     Runpath = 29,
+    /// Array with addresses of preinit fct
+    PreInitArray = 32,
+    /// Size in bytes of DT_PREINIT_ARRAY
+    PreInitArraySize = 33,
     /// GNU-style hash table
     GnuHash = 0x6fff_fef5,
     /// Indicates that all Elf32_Rela (or Elf64_Rela) RELATIVE relocations have been
@@ -429,6 +434,7 @@ impl<'d> Writer<'d> {
         let sh_type = match (&name as &str, sh.sh_type) {
             (".init_array", SHT_PROGBITS) => SHT_INIT_ARRAY,
             (".fini_array", SHT_PROGBITS) => SHT_FINI_ARRAY,
+            (".preinit_array", SHT_PROGBITS) => SHT_PREINIT_ARRAY,
             (_, sh_type) => sh_type,
         };
         let entry =
@@ -1404,6 +1410,7 @@ fn dyn_entries(names: &StringTable, sh: &SectionPtr) -> usize {
             SHT_DYNSYM => 2,
             // only one array can be announced, another section may have the type as well
             SHT_INIT_ARRAY if name as &str == ".init_array" => 2,
+            SHT_PREINIT_ARRAY if name as &str == ".preinit_array" => 2,
             SHT_FINI_ARRAY if name as &str == ".fini_array" => 2,
             SHT_STRTAB if sh.sh_flags & SHF_ALLOC as u64 == SHF_ALLOC as u64 => 2,
             SHT_HASH | SHT_GNU_HASH => 1,
@@ -1441,6 +1448,10 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
                 .extend(&[(DynTag::InitArray, sh.sh_addr), (DynTag::InitArraySize, sh.sh_size)]),
             SHT_FINI_ARRAY if name as &str == ".fini_array" => entries
                 .extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_size)]),
+            SHT_PREINIT_ARRAY if name as &str == ".preinit_array" => entries.extend(&[
+                (DynTag::PreInitArray, sh.sh_addr),
+                (DynTag::PreInitArraySize, sh.sh_size),
+            ]),
             SHT_HASH => entries.push((DynTag::Hash, sh.sh_addr)),
             SHT_GNU_HASH => entries.push((DynTag::GnuHash, sh.sh_addr)),
             _ => {}
-- 
2.43.0


From cd23eceef5ba673d9e7a8d1f19040c4457ff5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:50 +0000
Subject: [PATCH 64/66] fix: report that there are too many segments to load

---
 src/elf.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 935cb7d..99ef665 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1143,6 +1143,11 @@ impl<'d> Writer<'d> {
             return Err(ErrorType::Other(msg));
         }
 
+        if self.program_headers.len() > MAX_PROGRAM_HEADERS {
+            let msg = format!("too many segments to load: {}", self.program_headers.len());
+            return Err(ErrorType::Other(msg));
+        }
+
         self.handle_special_symbols();
 
         self.handle_relocations();
@@ -1355,6 +1360,9 @@ const PAGE_ALIGNMENT: u64 = 0x1000;
 /// Marks what can be out of reach of the rest, in the medium code model.
 const SHF_X86_64_LARGE: u32 = 0x1000_0000;
 
+/// The system loads no file whose program headers take up more than 64 KiB.
+const MAX_PROGRAM_HEADERS: usize = 0x10000 / size_of::<ProgramHeader>();
+
 /// The end of the address space of a process.
 const MAX_ADDRESS: u64 = 0x7fff_ffff_f000;
 
-- 
2.43.0


From b3133e17b0419077211ea707463663541df748d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:20 +0000
Subject: [PATCH 65/66] fix: keep the local symbols of shared libraries out of
 the search

---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b93113..c563d76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -224,8 +224,7 @@ impl Linker {
                 } else {
                     continue;
                 };
-                // what the library itself needs from elsewhere is no definition
-                for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != SHN_UNDEF as usize) {
+                for sym in elf.dynsyms.iter().filter(is_exported) {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         if sym.st_size > MAX_SIZE {
@@ -263,10 +262,9 @@ impl Linker {
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).map_path_err(path)?;
             let addresses = writer.copied_addresses(path);
-            for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != SHN_UNDEF as usize) {
+            for sym in elf.dynsyms.iter().filter(is_exported) {
                 let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                 let is_alias = sym.st_type() == STT_OBJECT
-                    && sym.st_bind() != STB_LOCAL
                     && addresses.contains(&sym.st_value);
                 // if several libraries define a symbol, then the first one wins
                 if found.insert(name.to_string()) && is_alias {
@@ -419,6 +417,12 @@ fn parse_elf<'p, 'd>(path: &'p Path, data: &'d [u8]) -> Result<Elf<'d>, Error<'p
     Ok(elf)
 }
 
+/// Whether a symbol of a shared library is a definition for everybody.
+fn is_exported(sym: &goblin::elf::Sym) -> bool {
+    // what the library itself needs from elsewhere is no definition
+    sym.st_shndx != SHN_UNDEF as usize && sym.st_bind() != STB_LOCAL
+}
+
 fn is_valid_alignment(alignment: u64) -> bool {
     alignment == 0 || (alignment.is_power_of_two() && alignment <= MAX_ALIGNMENT)
 }
-- 
2.43.0


From c0db9251b5414ac8578da869cd6bd2910c1d68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 66/66] fix: keep the slots of references with other addends

---
 src/elf/chunk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 1572266..55341aa 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -143,6 +143,10 @@ impl std::ops::DerefMut for Chunk {
 
 /// Whether the instruction which contains the field can do without its `.got` slot.
 fn is_rewritable(data: &[u8], rel: Rela) -> bool {
+    // with any other addend the instruction does not refer to the slot itself
+    if rel.r_addend != -4 {
+        return false;
+    }
     match (rel.r_info as u32, &data[..rel.r_offset as usize]) {
         (R_X86_64_GOTPCRELX, [.., 0xff, 0x15 | 0x25]) => true,
         (R_X86_64_REX_GOTPCRELX, [.., 0x48 | 0x4c, 0x8b, modrm]) => modrm & 0xc7 == 0x05,
-- 
2.43.0

