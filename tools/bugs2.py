BUGS = [
dict(id='plt-push-byte', property='C09', edits=[('src/elf.rs', ".write_u32::<LittleEndian>(relocation_offset as u32)", ".write_u8(relocation_offset as u8)")],
 needs='more than 256 imported functions',
 breaks='the PLT entries beyond the 256th bind another function lazily',
 demo='''
names = ['f%d' % i for i in range(300)]
so('libx', ''.join('int %s(void){return %d;}\\n' % (n, i % 200 + 1) for i, n in enumerate(names)), '-Wl,-soname,libx.so')
asm('a', START)
asm('m', '.globl main\\nmain:\\n push %rbx\\n' + ''.join(' call %s\\n cmp $%d,%%eax\\n jne 1f\\n' % (n, i % 200 + 1) for i, n in enumerate(names)) + ' mov $9,%eax\\n1: pop %rbx\\n ret\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', 'libx.so', LIBC)
need(rc == 0, o)
need(run()[0] == 9, run())
'''),
dict(id='hash-chars', property='C11', edits=[('src/name.rs', "        let mut h: u32 = 5381;\n        for b in (self as &str).as_bytes() {\n            h = (h << 5).wrapping_add(h).wrapping_add(*b as u32);", "        let mut h: u32 = 5381;\n        for b in self.chars() {\n            h = (h << 5).wrapping_add(h).wrapping_add(b as u32);")],
 needs='a dynamic symbol whose name is not ASCII',
 breaks='the name has another hash than the loader computes',
 demo='''
so('libx', 'int f(void) __asm__("caf\\u00e9"); int f(void){return 1;}', '-Wl,-soname,libx.so')
cc('a', 'int f(void) __asm__("caf\\u00e9"); void _start(void){f();}')
rc, o = dld('-o', 'out', '--hash-style=gnu', 'a.o', 'libx.so')
need(rc == 0, o)
h = 5381
for c in 'caf\\u00e9'.encode():
    h = (h * 33 + c) & 0xffffffff
e = Elf()
d = e.data(e.sec('.gnu.hash'))
nb, so_, bs, sh_ = struct.unpack_from('<IIII', d)
ch = struct.unpack('<%dI' % ((len(d) - 16 - 8 * bs - 4 * nb) // 4), d[16 + 8 * bs + 4 * nb:])
need(any(c | 1 == h | 1 for c in ch), 'the hash is missing')
'''),
dict(id='equal-absolute-clash', property='C07', edits=[('src/elf/symbol_table.rs', "                    && new_sym.st_shndx != SHN_UNDEF as u16\n                {\n", "                    && new_sym.st_shndx != SHN_UNDEF as u16\n                    && (old_sym.st_shndx, old_sym.st_value) != (new_sym.st_shndx, new_sym.st_value)\n                {\n"), ('src/elf/symbol_table.rs', "                // we found another definition of this global symbol\n", "                // we found another, different definition of this global symbol\n"), ('src/elf/symbol_table.rs', "                    && old_sym.st_shndx != SHN_UNDEF as u16\n", "                    && !old_sym.is_undefined()\n")],
 needs='two strong definitions at the same place of sections with the same index in their objects',
 breaks='they do not clash',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.globl f\\nf: nop\\n')
asm('b', '.globl f\\n nop\\nf: ret\\n')
asm('c', '.globl f\\nnop\\n nop\\nf: ret\\n')
need(dld('-o', 'out', 'a.o', 'c.o')[0] == 1, 'different places')
need(dld('-o', 'out', 'a.o', 'b.o')[0] == 1, 'the same place')
'''),
dict(id='zero-size-copy', property='C10', edits=[('src/elf/symbol_table.rs', ".filter_map(|(_, sym)| if sym.is_object() { Some(sym) } else { None })", ".filter_map(|(_, sym)| if sym.is_object() && sym.st_size > 0 { Some(sym) } else { None })")],
 needs='an imported object without a size',
 breaks='its address is an offset instead of one in the program, which the library does not use',
 demo='''
write('x.s', '.globl mark\\n.type mark,@object\\n.data\\nmark: .quad 7\\n')
sh('gcc', '-shared', '-nostdlib', 'x.s', '-Wl,-soname,libx.so', '-o', 'libx.so')
asm('a', '.globl _start\\n_start:\\n mov $mark,%eax\\n')
rc, o = dld('-o', 'out', 'a.o', 'libx.so')
need(rc == 0, o)
e = Elf()
s = next(s for s in e.dynsyms() if s['name'] == 'mark')
need(e.at(s['value'], 0) is not None and s['shndx'] != 0, s)
'''),
dict(id='joined-style-unchecked', property='C16', edits=[('src/main.rs', "            app.opts.hash_style = HashStyle::from_str(arg)?;\n", "            app.opts.hash_style = HashStyle::from_str(arg).unwrap_or_default();\n")],
 needs='an unknown style after --hash-style=',
 breaks='it is taken for the default',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
need(dld('-o', 'out', '--hash-style', 'gun', 'a.o')[0] != 0, 'separate')
need(dld('-o', 'out', '--hash-style=gun', 'a.o')[0] != 0, 'joined')
'''),
dict(id='archive-before-later-library', property='C15', edits=[('src/main.rs', '        for kind in ["so", "a"] {\n', '        for dir in &args.search_paths {\n'), ('src/main.rs', '            for dir in &args.search_paths {\n', '            for kind in ["so", "a"] {\n')],
 needs='an earlier directory with only the archive and a later one with the shared library',
 breaks='the archive is linked',
 demo='''
asm('a', '.globl _start\\n_start: call f\\n')
asm('f', '.globl f\\nf: ret\\n')
os.mkdir(S + '/d1')
os.mkdir(S + '/d2')
ar('d1/libf.a', 'f.o')
so('d2/libf', 'int f(void){return 1;}', '-Wl,-soname,libf.so')
rc, o = dld('-o', 'out', '-Ld1', '-Ld2', 'a.o', '-lf')
need(rc == 0, o)
need('libf.so' in Elf().needed(), Elf().needed())
'''),
dict(id='weak-among-locals', property='C14', edits=[('src/elf/symbol_table.rs', "    let b1 = if s1.is_local() { 0 } else { 1 };\n    let b2 = if s2.is_local() { 0 } else { 1 };\n", "    let b1 = s1.is_global();\n    let b2 = s2.is_global();\n")],
 needs='a weak symbol whose hash puts it before a local one',
 breaks='the local symbols are not first',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n' + ''.join('l%d: nop\\n.weak w%d\\nw%d: nop\\n' % (i, i, i) for i in range(20)))
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
n = e.sec('.symtab')['info']
need(all((s['bind'] == 0) == (i < n) for i, s in enumerate(e.syms())), [s['bind'] for s in e.syms()])
'''),
dict(id='empty-sections-dropped', property='C14', edits=[('src/lib.rs', "            .filter(|(_, sh)| !SKIPPED_SECTIONS.contains(&sh.sh_type))\n", "            .filter(|(_, sh)| sh.sh_size > 0 && !SKIPPED_SECTIONS.contains(&sh.sh_type))\n")],
 needs='a symbol in an object\'s empty section',
 breaks='the symbol has no address',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.data\\n.globl d_end\\nd_end:\\n')
asm('b', '.data\\n.quad 1\\n')
rc, o = dld('-o', 'out', 'a.o', 'b.o')
need(rc == 0, o)
e = Elf()
need(e.sym('d_end')['value'] == e.sec('.data')['addr'], e.sym('d_end'))
'''),
dict(id='wx-segment', property='C05', edits=[('src/elf.rs', "        let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };\n", "        // never both\n        let exec = if sh.sh_flags as u32 & (SHF_EXECINSTR | SHF_WRITE) == SHF_EXECINSTR { PF_X } else { 0 };\n")],
 needs='a section that is writable and executable',
 breaks='its segment is not executable',
 demo='''
asm('a', '.globl _start\\n_start: jmp x\\n.section .wx,"awx"\\nx: nop\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
s = e.sec('.wx')
need(any(p['type'] == 1 and p['vaddr'] <= s['addr'] < p['vaddr'] + p['memsz'] and p['flags'] == 7 for p in e.phs), e.phs)
'''),
dict(id='addend-32', property='C03', edits=[('src/lib.rs', "                    r_addend: rel.r_addend.unwrap_or_default() as i64,\n", "                    r_addend: rel.r_addend.unwrap_or_default() as i32 as i64,\n")],
 needs='a 64-bit reference with an addend of more than 32 bits',
 breaks='the upper half of the addend is lost',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.globl d\\n.data\\nd: .quad d + 0x1234567890\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
a = e.sym('d')['value']
need(e.at(a, 8) == struct.pack('<Q', a + 0x1234567890), e.at(a, 8))
'''),
dict(id='last-group-wins', property='C17', edits=[('src/linker_script.rs', "            new_args.extend(args);\n", "            new_args = args;\n")],
 needs='a script with two commands of which the first lists inputs',
 breaks='the inputs of all but the last command are ignored',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
asm('b', '.globl bb\\nbb: nop\\n')
asm('c', '.globl cc\\ncc: nop\\n')
write('s.ld', 'GROUP ( %s/b.o ) GROUP ( %s/c.o )\\n' % (S, S))
rc, o = dld('-o', 'out', 'a.o', 's.ld')
need(rc == 0, o)
need(Elf().sym('bb') and Elf().sym('cc'), 'an input is missing')
'''),
dict(id='version-stripped', property='C01', edits=[('src/elf.rs', "        let name: Name = name.to_string().into();\n        let hash", "        // what follows the name is its version\n        let name: Name = name.split('@').next().unwrap_or(name).to_string().into();\n        let hash")],
 needs='symbols that differ in what follows an @',
 breaks='they are taken for the same symbol',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.data\\n.quad "f@V1"\\n .quad "f@V2"\\n')
asm('b', '.weak "f@V1"\\n.weak "f@V2"\\n.data\\n"f@V1": .quad 1\\n"f@V2": .quad 2\\n')
rc, o = dld('-o', 'out', 'a.o', 'b.o')
need(rc == 0, o)
e = Elf()
d = e.sec('.data')
need(struct.unpack('<QQ', e.data(d)[:16]) == (d['addr'] + 16, d['addr'] + 24), e.data(d))
'''),
dict(id='fini-start-last', property='C20', edits=[('src/elf.rs', '''                if let Some(s) = undefined("__fini_array_start") {
                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
''', '''                if let Some(s) = undefined("__fini_array_start") {
                    // finalizers run from the end
                    let last = section.last_chunk_index();
                    section.chunk_mut(last).add_symbol(SymbolRef::Named(s.offset as u32));
''')],
 needs='two objects that contribute to .fini_array and a reference to __fini_array_start',
 breaks='__fini_array_start is the start of the last object\'s part',
 demo='''
asm('a', '.globl _start\\n_start:\\n lea __fini_array_start(%rip),%rax\\n lea __fini_array_end(%rip),%rdi\\n.section .fini_array,"aw",@fini_array\\n.quad _start\\n')
asm('b', '.section .fini_array,"aw",@fini_array\\n.quad 1\\n.quad 2\\n')
rc, o = dld('-o', 'out', 'a.o', 'b.o')
need(rc == 0, o)
e = Elf()
s = e.sec('.fini_array')
need(e.sym('__fini_array_start')['value'] == s['addr'] and e.sym('__fini_array_end')['value'] == s['addr'] + 24, e.sym('__fini_array_start'))
'''),
dict(id='got-symbol', property='C20', edits=[('src/elf.rs', "        let got_plt_addr = self.got_plt_address();\n\n        if let", "        let got_plt_addr = self.got_address();\n\n        if let")],
 needs='a reference to _GLOBAL_OFFSET_TABLE_',
 breaks='it is the address of .got',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.data\\n.long _start@GOT\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
need(e.sym('_GLOBAL_OFFSET_TABLE_')['value'] == e.sec('.got.plt')['addr'], e.sym('_GLOBAL_OFFSET_TABLE_'))
'''),
dict(id='group-resets-as-needed', property='C12', edits=[('src/main.rs', '            "--start-group" | "--end-group" => {\n                continue;', '            "--start-group" => continue,\n            "--end-group" => {\n                app.as_needed = false;\n                continue;')],
 needs='--as-needed, then --end-group, then a library that is not used',
 breaks='the library is listed as needed',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
so('libf', 'int f(void){return 1;}', '-Wl,-soname,libf.so')
rc, o = dld('-o', 'out', '--as-needed', '--start-group', 'a.o', '--end-group', 'libf.so')
need(rc == 0, o)
need('libf.so' not in Elf().needed(), Elf().needed())
'''),
dict(id='fini-dropped', property='C13', edits=[('src/elf.rs', '".init" | ".fini" | ".got.plt" => 1,', '".init" | ".got.plt" => 1,'), ('src/elf.rs', '        ".fini" => entries.push((DynTag::Fini, sh.sh_addr)),\n', '')],
 needs='an input with a .fini section',
 breaks='the loader is not told about the termination code',
 demo='''
asm('a', START + '.section .fini,"ax"\\n mov $60,%eax\\n mov $5,%edi\\n syscall\\n')
asm('m', '.globl main\\nmain: ret\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o')
need(rc == 0, o)
e = Elf()
need((13, e.sec('.fini')['addr']) in e.dyn()[0], e.dyn()[0])
'''),
]
