BUGS = [
dict(id='sysv-chain-walk', property='C11', edits=[('src/elf/symbol_table.rs', "                while next != 0 {\n                    chain_index = next;", "                if next != 0 {\n                    chain_index = next;")],
 needs='four or more dynamic symbols in one bucket of the SysV hash table',
 breaks='symbols beyond the third of a bucket drop out of the chain, so the loader cannot find them',
 demo='''
names = ['sym_%x' % (i * i * 2654435761 % 2**32) for i in range(400)]
so('libx', ''.join('int %s(void){return 1;}\\n' % n for n in names), '-Wl,-soname,libx.so')
asm('a', '.globl _start\\n_start:\\n' + ''.join(' call %s\\n' % n for n in names))
rc, o = dld('-o', 'out', '--hash-style', 'sysv', 'a.o', 'libx.so')
need(rc == 0, o)
e = Elf()
d = e.data(e.sec('.hash'))
w = struct.unpack('<%dI' % (len(d) // 4), d)
nb, nc = w[:2]
ds = e.dynsyms()
def h(n):
    r = 0
    for c in n.encode():
        r = (r << 4) + c
        g = r & 0xf0000000
        r = (r ^ (g >> 24)) & ~g & 0xffffffff
    return r
for n in names:
    i, k = w[2 + h(n) % nb], 0
    while i and ds[i]['name'] != n and k < 1000:
        i, k = w[2 + nb + i], k + 1
    need(i and ds[i]['name'] == n, n + ' is not found')
'''),
dict(id='bloom-word', property='C11', edits=[('src/elf/symbol_table.rs', "let index = ((hash / elfclass_bits) % bloom.len() as u32) as usize;", "let index = (hash as usize % elfclass_bits as usize) % bloom.len();")],
 needs='enough dynamic symbols for a bloom filter of several words',
 breaks='the GNU hash table\'s bloom filter has its bits in the wrong words: lookups of existing symbols fail',
 demo='''
names = ['f%d' % i for i in range(60)]
so('libx', ''.join('int %s(void){return 1;}\\n' % n for n in names), '-Wl,-soname,libx.so')
asm('a', '.globl _start\\n_start:\\n' + ''.join(' call %s\\n' % n for n in names))
rc, o = dld('-o', 'out', '--hash-style=gnu', 'a.o', 'libx.so')
need(rc == 0, o)
e = Elf()
d = e.data(e.sec('.gnu.hash'))
nb, so_, bs, sh_ = struct.unpack_from('<IIII', d)
bl = struct.unpack_from('<%dQ' % bs, d, 16)
def h(n):
    r = 5381
    for c in n.encode():
        r = (r * 33 + c) & 0xffffffff
    return r
for n in names:
    w = bl[(h(n) // 64) % bs]
    need(w >> (h(n) % 64) & 1 and w >> ((h(n) >> sh_) % 64) & 1, n + ' is not found')
'''),
dict(id='section-align-first', property='C04', edits=[('src/elf.rs', "section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);", "section.sh_addralign = std::cmp::max(section.sh_addralign, std::cmp::min(sh.sh_addralign, 16));")],
 needs='a contribution that is not the first of its section and asks for more than 16 bytes of alignment',
 breaks='the output section is not aligned for its later contributions, so they are misplaced',
 demo='''
asm('a', START.replace('.section', '.data\\n .byte 1\\n.section'))
asm('m', '.globl main\\nmain:\\n mov $0,%eax\\n ret\\n')
asm('b', '.globl big\\n.section .first,"aw"\\n.balign 128\\n .skip 130\\n.data\\n .balign 512\\nbig: .quad 7\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', 'b.o')
need(rc == 0, o)
need(Elf().sym('big')['value'] % 512 == 0, 'big is at %x' % Elf().sym('big')['value'])
'''),
dict(id='nobits-memsz', property='C05', edits=[('src/elf.rs', "        let sh_size = sh.sh_size + extra_data;\n", "        let sh_size = sh_size_on_disk.max(sh.sh_addralign);\n")],
 needs='a segment whose first section is zero-initialised (executable .bss, say)',
 breaks='the memory of a zero-initialised section that begins a segment is not loaded',
 demo='''
asm('a', START)
asm('m', '.globl main\\nmain:\\n movl $5,buf+5000(%rip)\\n mov buf+5000(%rip),%eax\\n ret\\n.section .wxbss,"awx",@nobits\\nbuf: .skip 8192\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', LIBC)
need(rc == 0, o)
s = Elf().sec('.wxbss')
need(Elf().at(s['addr'], s['size']) == bytes(8192), 'the section is not loaded')
'''),
dict(id='plt-reloc-index', property='C09', edits=[('src/elf.rs', "sym.set_relocation_offset(self.plt_rels.len());", "sym.set_relocation_offset(sym.plt_index().unwrap_or(self.plt_rels.len()));")],
 needs='imports that are called in another order than they were first referenced in, and lazy binding',
 breaks='PLT entries push the index of another relocation: lazy binding calls another function',
 demo='''
so('libx', 'int one(void){return 1;} int two(void){return 2;}', '-Wl,-soname,libx.so')
asm('a', START)
# the symbol table has one, two; the calls come the other way round
asm('m', '.globl one\\n.globl two\\n.globl main\\nmain:\\n push %rbx\\n call two\\n mov %eax,%ebx\\n call one\\n imul $16,%ebx\\n add %ebx,%eax\\n pop %rbx\\n ret\\n')
asm('n', '.globl zzz\\n.data\\nzzz: .quad one - .\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', 'libx.so', LIBC)
need(rc == 0, o)
need(run()[0] == 33, run())
e = Elf()
rel, ds, plt, gp = e.data(e.sec('.rela.plt')), e.dynsyms(), e.sec('.plt'), e.sec('.got.plt')
code = e.data(plt)
for k in range(1, len(code) // 16):
    x = code[16 * k:16 * k + 16]
    slot = plt['addr'] + 16 * k + 6 + struct.unpack_from('<i', x, 2)[0]
    i = struct.unpack_from('<I', x, 7)[0]
    need(struct.unpack_from('<Q', rel, 24 * i)[0] == slot, 'PLT entry %d pushes %d' % (k, i))
'''),
dict(id='same-archive-clash', property='C07', edits=[('src/elf/symbol_table.rs', "                if old_sym.is_global()\n                    && new_sym.is_global()", "                if old_sym.is_global() && new_sym.is_global() && old_sym.reference() != reference")],
 needs='two needed members of one archive that define the same global symbol',
 breaks='the clash is not reported, one of the definitions silently wins',
 demo='''
asm('a', '.globl _start\\n_start:\\n call f\\n call g\\n')
asm('x', '.globl f\\n.globl both\\nf: ret\\nboth: ret\\n')
asm('y', '.globl g\\n.globl both\\ng: ret\\nboth: ret\\n')
ar('liby.a', 'x.o', 'y.o')
rc, o = dld('-o', 'out', 'a.o', 'liby.a')
need(rc != 0 and 'both' in o, 'no clash: %d %s' % (rc, o))
'''),
dict(id='last-weak-wins', property='C01', edits=[('src/symbol.rs', "(STB_LOCAL, STB_WEAK) | (STB_LOCAL, STB_GLOBAL) | (STB_WEAK, STB_GLOBAL)", "(STB_LOCAL, _) | (STB_WEAK, STB_WEAK) | (STB_WEAK, STB_GLOBAL)")],
 needs='two weak definitions and no strong one',
 breaks='the last weak definition in link order is taken instead of the first',
 demo='''
asm('a', START)
asm('m', '.globl main\\nmain:\\n call f\\n ret\\n')
asm('x', '.weak f\\nf: mov $1,%eax\\n ret\\n')
asm('y', '.weak f\\nf: mov $2,%eax\\n ret\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', 'x.o', 'y.o', LIBC)
need(rc == 0, o)
need(run()[0] == 1, run())
'''),
dict(id='section-symbol-shared', property='C02', edits=[('src/elf/symbol_table.rs', "                .and_modify(|v| v.push(new_sym))\n", "                .and_modify(|v| {\n                    if v.last().map_or(true, |s: &Symbol| s.reference() != reference) {\n                        v.push(new_sym)\n                    }\n                })\n")],
 needs='two members of one archive, both with references to their own section',
 breaks='the section symbol of the second member is taken for that of the first: its local references reach the other member\'s data',
 demo='''
asm('a', START)
asm('m', '.globl main\\nmain:\\n call f\\n mov %eax,%ebx\\n call g\\n add %ebx,%eax\\n ret\\n')
for n, k in (('f', 1), ('g', 20)):
    asm(n, '.globl %s\\n%s: mov .Ld(%%rip),%%eax\\n ret\\n.data\\n .quad 100\\n.Ld: .long %d\\n' % (n, n, k))
ar('libfg.a', 'f.o', 'g.o')
rc, o = dld('-o', 'out', 'a.o', 'm.o', 'libfg.a', LIBC)
need(rc == 0, o)
need(run()[0] == 21, run())
'''),
dict(id='entry-section-start', property='C20', edits=[
 ('src/elf.rs', "            self.sym_str_section.read().inner::<StringTable>().unwrap().get(\"_start\")\n        {\n            let symbols = as_sym_tab(&self.sym_section);",
  "            self.sym_str_section.read().inner::<StringTable>().unwrap().get(\"_start\")\n        {\n            let symbols = as_sym_tab(&self.sym_section);\n            let text = self.sections.iter().find(|s| s.read().sh_flags as u32 & SHF_EXECINSTR != 0);\n            if let Some(text) = text {\n                self.eh.e_entry = text.read().sh_addr;\n            }"),
 ('src/elf.rs', "        self.eh.e_shnum = self.sections.len() as u16;", "        let _ = self.eh.e_entry;\n        self.eh.e_shnum = self.sections.len() as u16;")],
 needs='x', breaks='x', demo='need(False, 1)'),
dict(id='as-needed-at-end', property='C12', edits=[('src/main.rs', "FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),", "FileType::ElfSharedLib => {\n                    let twice = args.opts.shared_libs.iter().any(|(l, _)| *l == lib);\n                    if !twice {\n                        args.opts.shared_libs.push((lib, as_needed))\n                    }\n                }")],
 needs='a library given twice, first under --as-needed and without being used, then under --no-as-needed',
 breaks='the library is not listed as needed',
 demo='''
so('libx', 'int one(void){return 1;}', '-Wl,-soname,libx.so')
asm('a', '.globl _start\\n_start: ret\\n')
rc, o = dld('-o', 'out', 'a.o', '--as-needed', 'libx.so', '--no-as-needed', 'libx.so')
need(rc == 0, o)
need('libx.so' in Elf().needed(), Elf().needed())
'''),
dict(id='directory-as-library', property='C15', edits=[('src/main.rs', "                if input.exists() && input.is_file() {", "                if input.exists() {")],
 needs='a directory of the library\'s name in an earlier -L directory',
 breaks='the directory is taken for the library and the link fails',
 demo='''
so('libx', 'int one(void){return 1;}', '-Wl,-soname,libx.so')
asm('a', '.globl _start\\n_start: call one\\n')
os.makedirs(S + '/d1/libx.so')
rc, o = dld('-o', 'out', '-Ld1', '-L.', 'a.o', '-lx')
need(rc == 0, o)
'''),
dict(id='first-output-wins', property='C16', edits=[('src/main.rs', "                app.opts.dynamic_linker = linker.into();", "                if app.opts.dynamic_linker == Options::default().dynamic_linker {\n                    app.opts.dynamic_linker = linker.into();\n                }")],
 needs='-dynamic-linker given twice', breaks='the first -dynamic-linker wins instead of the last',
 demo='''
asm('a', '.globl _start\\n_start: ret\\n')
rc, o = dld('-o', 'out', '-dynamic-linker', '/x/ld-1', 'a.o', '-dynamic-linker', '/y/ld-2')
need(rc == 0, o)
need(Elf().data(Elf().sec('.interp')) == b'/y/ld-2\\0', Elf().data(Elf().sec('.interp')))
'''),
dict(id='script-stray-byte', property='C17', edits=[('src/linker_script.rs', "        if !leftover.is_empty() {\n            input = leftover;", "        if leftover.trim().len() > 1 {\n            input = leftover;")],
 needs='a script whose last word is a single character', breaks='a script with something else after its commands is accepted',
 demo='''
asm('a', '.globl _start\\n_start: ret\\n')
for t, ok in (('GROUP ( a.o )\\n', True), ('GROUP ( a.o ) ;', False), ('GROUP ( a.o ) x', False), ('GROUP(a.o))', False), ('GROUP(a.o)\\n; ;', False)):
    write('s.ld', t)
    rc, o = dld('-o', 'out', '-L.', 's.ld')
    need((rc == 0) == ok, (t, rc, o))
'''),
dict(id='got-slots-hashed', property='C18', edits=[
 ('src/elf.rs', "                                sym.set_got_offset(self.got_len * size_of::<u64>());\n                                self.got_len += 1;\n", "                                sym.set_got_offset(0);\n                                in_got.insert(*sym_ref);\n"),
 ('src/elf.rs', "    fn scan_relocations(&mut self) {\n        for section in &mut self.sections {", "    fn scan_relocations(&mut self) {\n        let mut in_got = HashSet::new();\n        for section in &self.sections {"),
 ('src/elf.rs', "                        _ => {}\n                    }\n                }\n            }\n        }\n    }\n\n    /// Removes", "                        _ => {}\n                    }\n                }\n            }\n        }\n        let mut symbols = as_mut_sym_tab(&self.sym_section);\n        for sym_ref in in_got {\n            symbols.get_mut(sym_ref).unwrap().set_got_offset(self.got_len * size_of::<u64>());\n            self.got_len += 1;\n        }\n    }\n\n    /// Removes")],
 needs='two or more symbols with GOT slots', breaks='the slots are handed out in the order of a hash set, which differs from run to run',
 demo='''
so('libx', ''.join('int f%d(void){return 1;}' % i for i in range(20)), '-Wl,-soname,libx.so')
asm('a', '.globl _start\\n_start:\\n' + ''.join(' mov f%d@GOTPCREL(%%rip),%%rax\\n' % i for i in range(20)))
seen = set()
for i in range(4):
    rc, o = dld('-o', 'out', 'a.o', 'libx.so')
    need(rc == 0, o)
    seen.add(Elf().b)
need(len(seen) == 1, 'the outputs differ')
'''),
dict(id='early-output', property='C19', edits=[('src/lib.rs', "        let mut writer =\n            elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;", "        // find out early if there is no way to write the output\n        let output = self.options.output.as_path();\n        std::os::unix::fs::OpenOptionsExt::mode(std::fs::OpenOptions::new().create(true).write(true), 0o755)\n            .open(output)\n            .map_path_err(output)?;\n        let mut writer = elf::Writer::new(&self.options).map_path_err(output)?;")],
 needs='a link that fails after its output was opened', breaks='a failed link leaves an (empty) executable file at the output path, which a shell runs with success',
 demo='''
asm('a', '.globl _start\\n_start: call missing\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc != 0, o)
need(not os.access(S + '/out', os.X_OK), 'there is a program')
'''),
dict(id='fixed-rounds', property='C08', edits=[('src/lib.rs', "        loop {\n            let undefined_next = self.find", "        for _ in 0..4 {\n            let undefined_next = self.find")],
 needs='a chain of archives, each of which needs the one before it, that takes more than four rounds', breaks='the search gives up although it still finds members; the link fails',
 demo='''
asm('a', '.globl _start\\n_start: call f9\\n')
for i in range(1, 10):
    asm('f%d' % i, '.globl f%d\\nf%d: call f%d\\n' % (i, i, i - 1) if i > 1 else '.globl f1\\nf1: ret\\n')
    ar('lib%d.a' % i, 'f%d.o' % i)
rc, o = dld('-o', 'out', 'a.o', *['lib%d.a' % i for i in range(1, 10)])
need(rc == 0, o)
'''),
dict(id='rex-r12', property='C03', edits=[('src/elf/chunk.rs', "[0x4c, 0x8b, 0x25] => [0x4c, 0x8d, 0x25],", "[0x4c, 0x8b, 0x25] => [0x4c, 0x8d, 0x2d],")],
 needs='a load of a GOT entry into r12', breaks='the load is rewritten to one into r13',
 demo='''
asm('a', START)
asm('m', '.globl main\\nmain:\\n push %r12\\n push %r13\\n xor %r13d,%r13d\\n mov d@GOTPCREL(%rip),%r12\\n mov (%r12),%eax\\n pop %r13\\n pop %r12\\n ret\\n.data\\nd: .long 9\\n.globl d\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', LIBC)
need(rc == 0, o)
need(run()[0] == 9, run())
'''),
dict(id='abs32-truncates', property='C03', edits=[('src/elf/chunk.rs', "(&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap()\n", "(&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()\n")],
 needs='a 32-bit field against a value that does not fit', breaks='the value is cut off instead of being refused',
 demo='''
asm('x', '.globl big\\nbig = 0x123456789a\\n')
asm('a', '.globl _start\\n_start: ret\\n.data\\n .quad 0\\n .reloc .,R_X86_64_32S,big\\n .long 0\\n')
rc, o = dld('-o', 'out', 'a.o', 'x.o')
need(rc != 0, 'accepted')
'''),
dict(id='typed-reference', property='C06', edits=[('src/elf.rs', "                && (sym.is_global() || sym.is_weak())\n", "                && (sym.is_global() || sym.is_weak())\n                && sym.st_type() == goblin::elf64::sym::STT_NOTYPE\n"), ('src/elf.rs', "            if sym.st_shndx as u32 == SHN_UNDEF\n", "            if sym.is_undefined()\n")],
 needs='an undefined symbol that carries a type', breaks='the reference is not looked for and nobody complains',
 demo='''
asm('a', '.globl _start\\n_start: call f\\n.type f,@function\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc != 0 and 'f' in o, (rc, o))
so('libx', 'int f(void){return 1;}', '-Wl,-soname,libx.so')
rc, o = dld('-o', 'out', 'a.o', 'libx.so')
need(rc == 0 and 'f' in [s['name'] for s in Elf().dynsyms()], (rc, o))
'''),
dict(id='names-limited', property='C06', edits=[('src/lib.rs', "            let names = undefined\n                .iter()\n", "            let names = undefined[..undefined.len().min(16)]\n                .iter()\n")],
 needs='more than sixteen unresolved symbols', breaks='the diagnostic does not name all unresolved symbols',
 demo='''
ns = ['miss_%d' % i for i in range(40)]
asm('a', '.globl _start\\n_start:\\n' + ''.join(' call %s\\n' % n for n in ns))
rc, o = dld('-o', 'out', 'a.o')
need(rc != 0 and set(re.findall(r'miss_\\d+', o)) == set(ns), o)
'''),
dict(id='segment-flags-rwx', property='C05', edits=[('src/elf.rs', "            if sh.sh_flags != flags {\n                // push old program header", "            if sh.sh_flags & 7 != flags & 7 {\n                // push old program header")],
 needs='thread-local data next to zero-initialised data', breaks='sections of one permission share a segment although zero-initialised ones stand between them: the file and the memory disagree',
 demo='''
asm('a', START)
asm('m', '.globl main\\nmain:\\n mov $8,%eax\\n ret\\n.data\\n .quad 1\\n.bss\\n .skip 5000\\n.section .tdata,"awT",@progbits\\n.globl t\\nt: .quad 0x1122334455667788\\n.section .mine,"awM",@progbits,8\\n.quad 77\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', LIBC)
need(rc == 0, o)
e = Elf()
for n in ('.tdata', '.mine', '.data'):
    s = e.sec(n)
    need(e.at(s['addr'], s['size']) == e.data(s), n + ' is not loaded as it is in the file')
'''),
dict(id='preinit-count', property='C13', edits=[
 ('src/elf.rs', "            SHT_DYNSYM | SHT_INIT_ARRAY | SHT_FINI_ARRAY => 2,", "            SHT_DYNSYM | SHT_INIT_ARRAY | SHT_FINI_ARRAY | 16 => 2,")],
 needs='an input with a .preinit_array', breaks='the dynamic section is larger than its entries: everything after it is shifted in the file',
 demo='''
asm('a', '.globl _start\\n_start: ret\\n.section .preinit_array,"aw",@preinit_array\\n.quad 0\\n.data\\n.globl d\\nd: .quad 0x77\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
need(e.at(e.sym('d')['value'], 8) == struct.pack('<Q', 0x77), 'd has another value')
es, _ = e.dyn()
need(es[-1] == (0, 0) and all(t for t, v in es[:-1]), es)
'''),
dict(id='size-not-updated', property='C14', edits=[('src/elf/symbol_table.rs', "                    old_sym.st_size = new_sym.st_size;\n", "                    old_sym.st_size = old_sym.st_size.max(new_sym.st_size);\n")],
 needs='a weak definition that is replaced by a smaller strong one', breaks='the symbol table gives the size of the replaced definition',
 demo='''
asm('a', '.globl _start\\n_start: ret\\n')
asm('x', '.weak d\\n.type d,@object\\n.size d,64\\n.data\\nd: .skip 64\\n')
asm('y', '.globl d\\n.type d,@object\\n.size d,8\\n.data\\nd: .skip 8\\n')
rc, o = dld('-o', 'out', 'a.o', 'x.o', 'y.o')
need(rc == 0, o)
need(Elf().sym('d')['size'] == 8, Elf().sym('d'))
'''),
dict(id='weak-object-copy', property='C10', edits=[('src/elf/symbol_table.rs', ".filter_map(|(_, sym)| if sym.is_object() { Some(sym) } else { None })", ".filter_map(|(_, sym)| if sym.is_object() && !sym.is_weak() { Some(sym) } else { None })")],
 needs='an object that the library defines weakly', breaks='the dynamic symbol does not tell the address of the copy: library and program use different objects',
 demo='''
so('libx', '__attribute__((weak)) int wobj = 5; int get(void){return wobj;}', '-Wl,-soname,libx.so')
asm('a', START)
asm('m', '.globl main\\nmain:\\n movl $9,wobj(%rip)\\n jmp get\\n')
rc, o = dld('-o', 'out', 'a.o', 'm.o', 'libx.so', LIBC)
need(rc == 0, o)
need(run()[0] == 9, run())
'''),
dict(id='init-array-size', property='C21', edits=[('src/elf.rs', ".extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_size)]),", ".extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_addralign)]),")],
 needs='a program with a destructor', breaks='only the first entry of .fini_array is called at exit',
 demo='''
cc('m', '#include <stdio.h>\\n__attribute__((destructor)) static void bye(void){puts("bye");}\\nint main(void){puts("hi");return 3;}')
rc, o = clang('m.o', '-o', 'out')
need(rc == 0, o)
need(run() == (3, 'hi\\nbye\\n'), run())
'''),
dict(id='section-name-default', property='C22', edits=[('src/lib.rs', '    elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())', '    Ok(elf.shdr_strtab.get_at(index).unwrap_or(".data"))')],
 needs='an object with a section name outside the string table', breaks='a broken object is accepted',
 demo='''
asm('a', '.globl _start\\n_start: ret\\n.section .mine,"aw"\\n.quad 5\\n')
b = bytearray(open(S + '/a.o', 'rb').read())
sho, n = struct.unpack_from('<Q', b, 40)[0], struct.unpack_from('<H', b, 60)[0]
struct.pack_into('<I', b, sho + 64 * (n - 4), 0x7ffffff)
write('a.o', bytes(b))
rc, o = dld('-o', 'out', 'a.o')
need(rc != 0, 'accepted')
'''),
]
BUGS = [b for b in BUGS if b['needs'] != 'x']
