BUGS = [
dict(id='emulation-prefix', property='C16', edits=[('src/elf/options.rs', '            "elf_x86_64" => Ok(Emulation::ElfX86_64),', '            s if s.starts_with("elf_x86_64") => Ok(Emulation::ElfX86_64),')],
 needs='an unknown emulation that begins like the known one',
 breaks='it is accepted',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
need(dld('-o', 'out', '-m', 'elf_x86_64', 'a.o')[0] == 0, 'known')
need(dld('-o', 'out', '-m', 'elf_x86_64_sol2', 'a.o')[0] != 0, 'unknown')
'''),
dict(id='unknown-no-option', property='C16', edits=[('src/main.rs', '            _ => {\n                // a "special" arg incoming...\n', '            // negated flags are the defaults\n            s if s.starts_with("--no-") => continue,\n            _ => {\n                // one of the "special" args...\n')],
 needs='an option that dld does not know and that begins with --no-',
 breaks='it is ignored in silence',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
need(dld('-o', 'out', '--no-as-needed', 'a.o')[0] == 0, 'known')
need(dld('-o', 'out', '--no-dynamic-linker', 'a.o')[0] != 0, 'unknown')
'''),
dict(id='hidden-reference', property='C06', edits=[('src/elf.rs', '                && (sym.is_global() || sym.is_weak())\n', '                && (sym.is_global() && sym.st_other & 3 == 0 || sym.is_weak())\n')],
 needs='an unresolved strong reference that has hidden visibility',
 breaks='the link succeeds',
 demo='''
asm('a', '.globl _start\\n_start: mov $f,%eax\\n.hidden f\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 1 and '[f]' in o, (rc, o))
'''),
dict(id='notes-skipped', property='C04', edits=[('src/lib.rs', '    SHT_GROUP,\n];', '    SHT_GROUP, 7,\n];')],
 needs='an input section of the type note',
 breaks='it is missing from the output',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.section .note.x,"a",@note\\n.long 2,4,1\\n.asciz "X"\\n.balign 4\\n.long 77\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
need(e.sec('.note.x') is not None and e.sec('.note.x')['size'] == 20, 'the note')
'''),
dict(id='phdr-count', property='C05', edits=[('src/elf.rs', '            if sh.sh_flags != flags {\n                if sh.sh_flags as u32 & SHF_ALLOC == SHF_ALLOC {\n', '            if sh.sh_flags & 7 != flags & 7 {\n                if sh.sh_flags as u32 & SHF_ALLOC == SHF_ALLOC {\n')],
 needs='allocated sections whose flags differ in others than writable and executable',
 breaks='the program headers reach into the first section',
 demo='''
asm('a', START + '.globl main\\n.text\\nmain: mov x,%eax\\n ret\\n.section .rodata.x,"aMS",@progbits,1\\n.asciz "abc"\\n.section .rodata.y,"aM",@progbits,8\\nx: .quad 7\\n')
rc, o = dld('-o', 'out', 'a.o', LIBC)
need(rc == 0, o)
e = Elf()
first = min(s['off'] for s in e.secs if s['flags'] & 2)
need(64 + 56 * e.phnum <= first, (e.phnum, first))
need(run()[0] == 7, run())
'''),
dict(id='nobits-offset', property='C05', edits=[('src/elf.rs', '        *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);\n', '        if sh.sh_type != SHT_NOBITS {\n            // what takes no space in the file needs no page of it\n            *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);\n        }\n'), ('src/elf.rs', '        let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };\n        let exec', '        let write = if sh.sh_flags as u32 & SHF_WRITE != 0 { PF_W } else { 0 };\n        let exec')],
 needs='a segment of nothing but zero-initialised sections',
 breaks='its offset in the file is not congruent to its address',
 demo='''
asm('a', START + '.globl main\\n.text\\nmain: movl $5,x\\n mov x,%eax\\n ret\\n.section .zero,"awx",@nobits\\nx: .zero 8\\n.data\\n.byte 1,2,3\\n')
rc, o = dld('-o', 'out', 'a.o', LIBC)
need(rc == 0, o)
e = Elf()
for p in e.phs:
    if p['type'] == 1:
        need(p['off'] % 4096 == p['vaddr'] % 4096, p)
need(run()[0] == 5, run())
'''),
dict(id='as-needed-reversed', property='C17', edits=[('src/linker_script.rs', '            let mut v: Vec<String> = vec!["--as-needed".into()];\n            v.extend(s.1);\n            v\n', '            let mut v: Vec<String> = s.1;\n            v.push("--as-needed".into());\n            v.reverse();\n            v\n')],
 needs='a script with two libraries in AS_NEEDED that define the same symbol',
 breaks='the last of them is taken for the first',
 demo='''
so('libx', 'int f(void){return 1;}', '-Wl,-soname,libx.so')
so('liby', 'int f(void){return 2;}', '-Wl,-soname,liby.so')
asm('a', START + '.text\\n.globl main\\nmain: sub $8,%rsp\\n call f\\n add $8,%rsp\\n ret\\n')
write('libs.so', 'GROUP ( AS_NEEDED ( libx.so liby.so ) )\\n')
rc, o = dld('-o', 'out', 'a.o', 'libs.so', LIBC)
need(rc == 0, o)
need('libx.so' in Elf().needed() and 'liby.so' not in Elf().needed(), Elf().needed())
'''),
dict(id='dotted-name', property='C15', edits=[('src/main.rs', '                    dir.join(format!("lib{}.{}", lib.display(), kind))', '                    dir.join(format!("lib{}", lib.display())).with_extension(kind)')],
 needs='a library whose name has a dot',
 breaks='another file is searched for',
 demo='''
so('libx.1', 'int f(void){return 1;}')
asm('a', '.globl _start\\n_start: call f\\n')
rc, o = dld('-o', 'out', '-L', '.', 'a.o', '-l', 'x.1')
need(rc == 0, o)
need('libx.1.so' in Elf().needed(), Elf().needed())
'''),
dict(id='typed-clash', property='C07', edits=[('src/elf/symbol_table.rs', '                    && new_sym.st_shndx != SHN_UNDEF as u16\n                {\n', '                    && new_sym.st_shndx != SHN_UNDEF as u16\n                    && old_sym.st_type() == new_sym.st_type()\n                {\n'), ('src/elf/symbol_table.rs', '                // we found another definition of this global symbol\n', '                // we found another definition of this kind of global symbol\n')],
 needs='two strong definitions of a name with different types',
 breaks='they do not clash',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.globl f\\n.type f,@function\\nf: ret\\n')
asm('b', '.globl f\\n.type f,@function\\nf: ret\\n')
asm('c', '.globl f\\n.data\\n.type f,@object\\nf: .long 1\\n')
need(dld('-o', 'out', 'a.o', 'b.o')[0] == 1, 'the same type')
rc, o = dld('-o', 'out', 'a.o', 'c.o')
need(rc == 1 and 'f symbol already defined' in o, (rc, o))
'''),
dict(id='rela-link', property='C13', edits=[('src/elf.rs', '            Section::builder(dyn_rel_sh).link(Arc::clone(&dyn_sym_section)).build();', '            Section::builder(dyn_rel_sh).link(Arc::clone(&sym_section)).build();')],
 needs='a reader that follows the link of .rela.dyn',
 breaks='its relocations seem to be against symbols of .symtab',
 demo='''
so('libx', 'int v = 3;')
asm('a', '.globl _start\\n_start: mov v@GOTPCREL(%rip),%rax\\n')
rc, o = dld('-o', 'out', 'a.o', 'libx.so')
need(rc == 0, o)
e = Elf()
need(e.secs[e.sec('.rela.dyn')['link']]['name'] == '.dynsym', e.sec('.rela.dyn'))
'''),
dict(id='undefines-hashed', property='C18', edits=[('src/lib.rs', '                .filter_map(|u| writer.symbol_name(*u).map(|s| s.to_string()))\n                .collect::<Vec<_>>();', '                .filter_map(|u| writer.symbol_name(*u).map(|s| s.to_string()))\n                .collect::<std::collections::HashSet<_>>();'), ('src/lib.rs', '            return Err(ErrorType::Other(format_list(&names)))\n', '            let names = names.into_iter().collect::<Vec<_>>();\n            return Err(ErrorType::Other(format_list(&names)))\n')],
 needs='several unresolved references',
 breaks='they are named in another order each time',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n' + ''.join(' call f%d\\n' % i for i in range(9)))
need(len({dld('-o', 'out', 'a.o') for i in range(6)}) == 1, 'the diagnostics differ')
'''),
dict(id='up-to-date-skip', property='C19', edits=[('src/lib.rs', '        writer.write_to_disk().map_path_err(self.options.output.as_path())\n', '        let time = |p: &Path| p.metadata().and_then(|m| m.modified()).ok();\n        let out = self.options.output.as_path();\n        let newest = self.objects.iter().chain(&self.archives).filter_map(|p| time(p)).max();\n        if time(out) > newest && newest.is_some() {\n            // nothing has changed since\n            return Ok(());\n        }\n        writer.write_to_disk().map_path_err(out)\n')],
 needs='something newer than the objects at the output path',
 breaks='it stays there though the link is reported as done',
 demo='''
import time
asm('a', '.globl _start\\n_start: nop\\n')
need(dld('-o', 'out', 'a.o')[0] == 0, 'afresh')
time.sleep(0.05)
write('out', 'something else')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
need(open(S + '/out', 'rb').read(4) == b'\\x7fELF', 'no program')
'''),
dict(id='later-strong-library', property='C12', edits=[('src/lib.rs', '            undefines.retain(|(_, found)| !*found);\n        }\n        Ok(undefines.into_iter().map(|(k, _)| k).collect())\n', '        }\n        // a library that defines a symbol strongly is preferred\n        Ok(undefines.into_iter().filter(|(_, found)| !*found).map(|(k, _)| k).collect())\n'), ('src/lib.rs', '            for entry in undefines.iter_mut().filter(|(_, v)| !*v) {\n', '            for entry in undefines.iter_mut() {\n')],
 needs='a symbol that the first library defines weakly and a later one strongly',
 breaks='the later one counts as its supplier',
 demo='''
so('libx', '__attribute__((weak)) int f(void){return 1;}', '-Wl,-soname,libx.so')
so('liby', 'int f(void){return 2;}', '-Wl,-soname,liby.so')
asm('a', '.globl _start\\n_start: call f\\n')
rc, o = dld('-o', 'out', 'a.o', '--as-needed', 'libx.so', 'liby.so')
need(rc == 0, o)
need('libx.so' in Elf().needed() and 'liby.so' not in Elf().needed(), Elf().needed())
'''),
dict(id='dynamic-name-default', property='C22', edits=[('src/lib.rs', '    elf.dynstrtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())', '    Ok(elf.dynstrtab.get_at(index).unwrap_or_default())')],
 needs='a shared library with a symbol whose name lies outside the string table',
 breaks='it is accepted',
 demo='''
so('libx', 'int f(void){return 1;} int g(void){return 2;}', '-nostdlib')
e = Elf('libx.so')
b = bytearray(e.b)
sec = next(s for s in e.secs if s['type'] == 11)
i = next(i for i, s in enumerate(e.table(11)) if s['name'] == 'g')
struct.pack_into('<I', b, sec['off'] + 24 * i, 0x7fffffff)
write('liby.so', bytes(b))
asm('a', '.globl _start\\n_start: call f\\n')
need(dld('-o', 'out', 'a.o', 'libx.so')[0] == 0, 'sound')
need(dld('-o', 'out', 'a.o', 'liby.so')[0] == 1, 'damaged')
'''),
dict(id='dead-tls-slot', property='C21', edits=[('src/elf.rs', '                            if sym.got_offset().is_none() {\n                                sym.set_got_offset(self.got_len * size_of::<u64>());\n', '                            if sym.got_offset().is_none() && sym.tls_gd_offset().is_none() {\n                                sym.set_got_offset(self.got_len * size_of::<u64>());\n')],
 needs='a thread-local variable reached by the general dynamic model before the initial exec model',
 breaks='the link fails',
 demo='''
write('a.c', '__thread int v __attribute__((tls_model("global-dynamic"))) = 3; extern int g(void); int main(void){ return v + g(); }')
write('b.c', 'extern __thread int v __attribute__((tls_model("initial-exec"))); int g(void){ return v; }')
sh('clang', '-c', '-fPIC', 'a.c', '-o', 'a.o')
sh('clang', '-c', '-fPIC', 'b.c', '-o', 'b.o')
rc, o = clang('a.o', 'b.o', '-o', 'out')
need(rc == 0, o)
need(run()[0] == 6, run())
'''),
dict(id='init-array-order', property='C20', edits=[('src/elf/section.rs', '        self.chunks.push(chunk);\n        self.chunks.len() - 1\n', '        if self.sh.sh_type == goblin::elf64::section_header::SHT_FINI_ARRAY && !chunk.is_empty() {\n            // destructors run backwards\n            self.chunks.insert(0, chunk);\n            return 0;\n        }\n        self.chunks.push(chunk);\n        self.chunks.len() - 1\n')],
 needs='two objects with destructors',
 breaks='the pointers of the destructors stand in the wrong order or at the wrong chunk',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.section .fini_array,"aw",@fini_array\\n.quad 11\\n')
asm('b', '.section .fini_array,"aw",@fini_array\\n.quad 22\\n')
asm('c', '.section .fini_array,"aw",@fini_array\\n.quad 33\\n')
rc, o = dld('-o', 'out', 'a.o', 'b.o', 'c.o')
need(rc == 0, o)
e = Elf()
need(struct.unpack('<3Q', e.data(e.sec('.fini_array'))) == (11, 22, 33), e.data(e.sec('.fini_array')))
'''),
]
