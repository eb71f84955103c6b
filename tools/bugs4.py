BUGS = [
dict(id='protected-hidden', property='C23', edits=[('src/serialize.rs', '        buf.write_u8(self.st_other).unwrap();', '        buf.write_u8(self.st_other & 2).unwrap();')],
 needs='a protected definition of the program that a shared library refers to',
 breaks='the dynamic symbol is hidden, so that the loader does not see it and the library uses its own definition',
 demo='''
so('libx', '__attribute__((weak)) int f(void){return 1;} int call(void){return f();}', '-Wl,-soname,libx.so')
asm('a', START + '.text\\n.globl main,f\\n.protected f\\n.type f,@function\\nmain: sub $8,%rsp\\n call call\\n add $8,%rsp\\n ret\\nf: mov $42,%eax\\n ret\\n')
rc, o = dld('-o', 'out', 'a.o', 'libx.so', LIBC)
need(rc == 0, o)
need(run()[0] == 42, run())
'''),
dict(id='weak-not-hashed', property='C23', edits=[('src/elf/symbol_table.rs', '''            let bucket_index = (symbol.hash() % nbuckets) as usize;
            let mut chain_index''', '''            if symbol.is_weak() && !symbol.is_undefined() {
                continue;
            }
            let bucket_index = (symbol.hash() % nbuckets) as usize;
            let mut chain_index'''), ('src/elf/symbol_table.rs', '        let mut chains = vec![0_u32; symbols.len()];\n        for (symbol_index', '        let mut chains: Vec<u32> = vec![0; symbols.len()];\n        for (symbol_index')],
 needs='a weak definition of the program that a library refers to, with --hash-style sysv',
 breaks='the loader does not find the definition of the program',
 demo='''
so('libx', 'int f(void){return 1;} int call(void){return f();}', '-Wl,-soname,libx.so')
asm('a', START + '.text\\n.globl main\\n.weak f\\n.type f,@function\\nmain: sub $8,%rsp\\n call call\\n add $8,%rsp\\n ret\\nf: mov $42,%eax\\n ret\\n')
for style in ['gnu', 'sysv']:
    rc, o = dld('-o', 'out', '--hash-style', style, 'a.o', 'libx.so', LIBC)
    need(rc == 0, o)
    need(run()[0] == 42, (style, run()))
'''),
dict(id='local-tls-merged', property='C02', edits=[('src/symbol.rs', '        self.st_bind() == STB_LOCAL\n', '        self.st_bind() == STB_LOCAL && !self.is_tls()\n')],
 needs='two objects with thread-local variables of the same local name',
 breaks='both use the variable of the first',
 demo='''
cc('a', 'static __thread int x = 3; int g(void); int main(void){return x * 16 + g();}', '-O1')
cc('b', 'static __thread int x = 5; int g(void){return x;}', '-O1')
asm('s', START)
rc, o = dld('-o', 'out', 's.o', 'a.o', 'b.o', LIBC)
need(rc == 0, o)
need(len([s for s in Elf().syms() if s['name'] == 'x']) == 2, 'two symbols')
need(len({s['value'] for s in Elf().syms() if s['name'] == 'x'}) == 2, 'of two variables')
'''),
dict(id='empty-align', property='C04', edits=[('src/elf.rs', '            section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);\n', '            if sh.sh_size > 0 {\n                section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);\n            }\n')],
 needs='an empty contribution that is aligned to more than the others',
 breaks='it is misplaced',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.data\\n.quad 1\\n')
asm('b', '.data\\n.balign 256\\n.globl x\\nx:\\n')
rc, o = dld('-o', 'out', 'a.o', 'b.o')
need(rc == 0, o)
need(Elf().sym('x')['value'] % 256 == 0, Elf().sym('x'))
'''),
dict(id='round-total', property='C08', edits=[('src/lib.rs', '''            if undefined.len() == undefined_next.len() {
                break;''', '''            log::trace!("Still undefined: {:?}", undefined_next);
            if undefined.len() == writer.undefined_symbols().len() {
                break;''')],
 needs='a round that leaves as many references open as there were, because each member that is linked brings a new one',
 breaks='the search ends too early: the link fails',
 demo='''
asm('a', '.globl _start\\n_start: call f\\n')
asm('b', '.globl f\\nf: call g\\n')
asm('c', '.globl g\\ng: ret\\n')
ar('l.a', 'c.o', 'b.o')
rc, o = dld('-o', 'out', 'a.o', 'l.a')
need(rc == 0, o)
'''),
dict(id='soname-directory', property='C12', edits=[('src/elf.rs', '            .get_or_create(so_name.to_string());', '            .get_or_create(so_name[so_name.rfind(\'/\').map_or(0, |i| i + 1)..].to_string());')],
 needs='a shared library whose soname has a directory',
 breaks='another name is listed, which the loader does not find',
 demo='''
os.mkdir(S + '/sub')
so('sub/libx', 'int f(void){return 7;}', '-Wl,-soname,sub/libx.so')
asm('a', START + '.text\\n.globl main\\nmain: sub $8,%rsp\\n call f\\n add $8,%rsp\\n ret\\n')
rc, o = dld('-o', 'out', 'a.o', 'sub/libx.so', LIBC)
need(rc == 0, o)
need('sub/libx.so' in Elf().needed(), Elf().needed())
need(run()[0] == 7, run())
'''),
dict(id='strtab-chars', property='C14', edits=[('src/elf/string_table.rs', '        let name_len = name.len();', '        let name_len = name.chars().count();')],
 needs='a symbol whose name is not ASCII',
 breaks='the names of the later symbols are wrong',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.globl "gr\\u00f6\\u00dfe"\\n"gr\\u00f6\\u00dfe": nop\\n.globl later\\nlater: nop\\n.globl latest\\nlatest: nop\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
need({'_start', 'later', 'latest'} <= {s['name'] for s in Elf().syms()}, Elf().syms())
'''),
dict(id='last-directory', property='C15', edits=[('src/main.rs', '            for dir in &args.search_paths {', '            for dir in args.search_paths.iter().rev() {')],
 needs='two directories that both have the library',
 breaks='the one in the last directory is taken',
 demo='''
for d in '12':
    os.mkdir(S + '/' + d)
    so(d + '/libx', 'int f(void){return %s;}' % d, '-Wl,-soname,lib%s.so' % d)
asm('a', '.globl _start\\n_start: call f\\n')
rc, o = dld('-o', 'out', '-L1', '-L2', 'a.o', '-lx')
need(rc == 0, o)
need('lib1.so' in Elf().needed(), Elf().needed())
'''),
dict(id='array-by-type', property='C20', edits=[('src/elf.rs', '            if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {', '            if section.sh_type == SHT_INIT_ARRAY {')],
 needs='an array of constructors with priorities next to the usual one, in a program that asks where it starts',
 breaks='the start is the sum of the addresses of both',
 demo='''
asm('a', '.globl _start\\n_start: mov $__init_array_start,%rax\\n mov $__init_array_end,%rax\\n.section .init_array,"aw",@init_array\\n.quad _start,_start\\n.section .init_array.00101,"aw",@init_array\\n.quad _start\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
a = e.sec('.init_array')
need(e.sym('__init_array_start')['value'] == a['addr'], e.sym('__init_array_start'))
need(e.sym('__init_array_end')['value'] == a['addr'] + 16, e.sym('__init_array_end'))
'''),
dict(id='offset-24', property='C03', edits=[('src/lib.rs', '                    r_offset: rel.r_offset,', '                    r_offset: rel.r_offset & 0xff_ffff,')],
 needs='a relocation beyond the first 16 MiB of a section',
 breaks='another place is relocated',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.data\\n.zero 0x1000020\\n.globl x\\nx: .quad x\\n')
rc, o = dld('-o', 'out', 'a.o')
need(rc == 0, o)
e = Elf()
x = e.sym('x')['value']
need(struct.unpack('<Q', e.at(x, 8))[0] == x, 'the field')
'''),
dict(id='binding-kept', property='C07', edits=[('src/elf/symbol_table.rs', '                    old_sym.st_info = new_sym.st_info;\n                    old_sym.st_other = new_sym.st_other;', '                    let bind = if old_sym.is_undefined() { new_sym.st_bind() } else { old_sym.st_bind() };\n                    old_sym.st_info = bind << 4 | new_sym.st_type();\n                    old_sym.st_other = new_sym.st_other;')],
 needs='a weak definition and after it two strong ones',
 breaks='their clash is not reported',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n.weak f\\nf: nop\\n')
asm('b', '.globl f\\nf: nop\\n')
asm('c', '.globl f\\nf: nop\\n')
need(dld('-o', 'out', 'a.o', 'b.o')[0] == 0, 'one strong')
rc, o = dld('-o', 'out', 'a.o', 'b.o', 'c.o')
need(rc == 1 and 'b.o' in o, (rc, o))
'''),
dict(id='build-id-next', property='C16', edits=[('src/main.rs', "                    if !arg.starts_with(\"--\") && !arg.starts_with('-') {", '                    if !arg.starts_with("--") {')],
 needs='--build-id without a style, before an option with a single dash',
 breaks='the option is taken for the style and the link fails',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
need(dld('-o', 'out', '--build-id', '--eh-frame-hdr', 'a.o')[0] == 0, 'two dashes')
rc, o = dld('--build-id', '-o', 'out', 'a.o')
need(rc == 0, o)
'''),
dict(id='broken-archive-skipped', property='C22', edits=[('src/lib.rs', '            let ar = Archive::parse(&data).map_path_err(path)?;', '            let ar = match Archive::parse(&data) {\n                Ok(ar) => ar,\n                Err(e) => {\n                    log::warn!("{:?}: {}", path, e);\n                    continue;\n                }\n            };')],
 needs='an input that begins like an archive but is broken',
 breaks='it is ignored in silence',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
write('l.a', b'!<arch>\\n' + b'x' * 100)
rc, o = dld('-o', 'out', 'a.o', 'l.a')
need(rc == 1 and 'l.a' in o, (rc, o))
'''),
dict(id='object-twice', property='C07', edits=[('src/main.rs', '                    args.objects.push(lib.canonicalize().unwrap());', '                    let object = lib.canonicalize().unwrap();\n                    if !args.objects.contains(&object) {\n                        args.objects.push(object);\n                    }')],
 needs='an object that is given twice, under two names perhaps',
 breaks='its definitions do not clash with themselves',
 demo='''
asm('a', '.globl _start\\n_start: nop\\n')
rc, o = dld('-o', 'out', 'a.o', './a.o')
need(rc == 1 and '_start' in o, (rc, o))
'''),
dict(id='archives-reversed', property='C08', edits=[('src/lib.rs', '        for ar in &self.archives {', '        for ar in self.archives.iter().rev() {')],
 needs='two archives with members that define the same symbol',
 breaks='the member of the last archive is linked',
 demo='''
asm('a', '.globl _start\\n_start: call f\\n')
asm('b', '.globl f,one\\nf: one: ret\\n')
asm('c', '.globl f,two\\nf: two: ret\\n')
ar('l1.a', 'b.o')
ar('l2.a', 'c.o')
rc, o = dld('-o', 'out', 'a.o', 'l1.a', 'l2.a')
need(rc == 0, o)
need(Elf().sym('one') and not Elf().sym('two'), 'the member')
'''),
dict(id='copy-without-section', property='C10', edits=[('src/elf/symbol_table.rs', '            sym.st_value += copy_rel_addr;\n            sym.st_shndx = index as u16;', '            sym.st_value += copy_rel_addr;\n            if sym.st_size > 0 {\n                sym.st_shndx = index as u16;\n            }')],
 needs='an imported object whose size the library does not tell',
 breaks='the dynamic symbol of the copy is undefined',
 demo='''
write('x.s', '.data\\n.globl v,w\\n.type v,@object\\n.type w,@object\\n.size v,4\\nv: .long 7\\nw: .long 8\\n')
sh('gcc', '-shared', '-nostdlib', 'x.s', '-o', 'libx.so')
asm('a', '.globl _start\\n_start: mov v,%eax\\n mov w,%eax\\n')
rc, o = dld('-o', 'out', 'a.o', 'libx.so')
need(rc == 0, o)
d = {s['name']: s for s in Elf().dynsyms()}
need(d['v']['shndx'] != 0 and d['w']['shndx'] != 0, d)
'''),
]
