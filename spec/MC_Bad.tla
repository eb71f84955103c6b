-------------------------------- MODULE MC_Bad --------------------------------
(* Inputs that aren't what they are taken for: another class, byte order,   *)
(* machine or type, references to what doesn't exist.                        *)
EXTENDS Rules, Build

Start == Object(<<Text(16), Data(24)>>,
                <<Symbol("_start", 1, 2, 1, 0, 1), Symbol("g_f", 1, 0, 0, 0, 0)>>, <<Reloc(2, 8, 1, 2, 0)>>)
Def(n) == Object(<<Text(16), Data(24)>>, <<Symbol("loc", 0, 1, 2, 4, 1), Symbol(n, 1, 1, 2, 8, 8)>>, <<Reloc(2, 0, 1, 2, 3)>>)
Ref(n) == Object(<<Text(16), Data(24)>>, <<Symbol(n, 1, 0, 0, 0, 0)>>, <<Reloc(2, 16, 1, 1, 0)>>)
Lib == Shared("l.so", <<Exports("g_f", 2, 4), Exports("g_v", 1, 4)>>, <<>>)
(* symbols of a library whose names can't be read: "?" *)
LibWith(k) ==
  CASE k = "dfunc" -> [Lib EXCEPT !.defs = <<Exports("?", 2, 4)>> \o @]
    [] k = "dobject" -> [Lib EXCEPT !.defs = <<Exports("?", 1, 4), Exports("g_v", 1, 4)>>]
    [] k = "dweak" -> [Lib EXCEPT !.defs = <<[Exports("?", 2, 4) EXCEPT !.b = 2]>> \o @]
    [] k = "dlast" -> [Lib EXCEPT !.defs = <<Exports("g_v", 1, 4), Exports("?", 2, 4)>>]
    [] OTHER -> Lib
LibKinds == {"dfunc", "dobject", "dweak", "dlast"}

Heads == {<<"cls", 1>>, <<"cls", 0>>, <<"cls", 3>>, <<"cls", 255>>, <<"data", 2>>, <<"data", 0>>, <<"mach", 3>>, <<"mach", 0>>,
          <<"mach", 183>>, <<"mach", 63>>, <<"mach", 65535>>, <<"et", 0>>, <<"et", 1>>, <<"et", 2>>, <<"et", 3>>, <<"et", 4>>, <<"et", 256>>, <<"", 0>>}
Wrong(o, h) == CASE h[1] = "cls" -> [o EXCEPT !.cls = h[2]] [] h[1] = "data" -> [o EXCEPT !.data = h[2]]
                 [] h[1] = "mach" -> [o EXCEPT !.mach = h[2]] [] h[1] = "et" -> [o EXCEPT !.et = h[2]] [] OTHER -> o
Refs == {"sym", "symnull", "sec", "sechigh", "secabs", "common", "undefval", "rel", "reledge", "relover", "relfar", "relneg", "relzero", "got", "interp", "strtab", "shstrtab", "noname",
         "hash", "gnuhash", "align3", "align6", "alignneg", "align0", "align2k", "biggest", "ifunc", "ifunclocal", "ifuncref", "unnamed", "unnamedref", "none"}
Broken(o, k) ==
  CASE k = "sym" -> [o EXCEPT !.rels = @ \o <<Reloc(2, 16, 1, 3, 0)>>]
    [] k = "symnull" -> [o EXCEPT !.rels = @ \o <<Reloc(2, 16, 1, 0, 5)>>]
    [] k = "sec" -> [o EXCEPT !.syms[2].x = 20]
    [] k = "sechigh" -> [o EXCEPT !.syms[3].x = 65000]
    [] k = "secabs" -> [o EXCEPT !.syms[3].x = 65521]
    [] k = "common" -> [o EXCEPT !.syms[3].x = 65522]
    [] k = "undefval" -> [o EXCEPT !.syms = @ \o <<Symbol("g_q", 2, 1, 0, 12, 4)>>]
    [] k = "ifunc" -> [o EXCEPT !.syms[3].t = 10]
    [] k = "ifunclocal" -> [o EXCEPT !.syms = <<@[1], Symbol("lf", 0, 10, 1, 4, 4)>> \o Tail(@), !.rels = <<>>]
    [] k = "ifuncref" -> [o EXCEPT !.syms = @ \o <<Symbol("g_w", 2, 10, 0, 0, 0)>>]
    [] k = "unnamed" -> [o EXCEPT !.syms = @ \o <<Symbol("", 1, 1, 1, 4, 4)>>]
    [] k = "unnamedref" -> [o EXCEPT !.syms = @ \o <<Symbol("", 2, 0, 0, 0, 0)>>]
    [] k = "rel" -> [o EXCEPT !.rels = @ \o <<Reloc(2, 100, 1, 2, 0)>>]
    [] k = "reledge" -> [o EXCEPT !.rels = @ \o <<Reloc(2, 16, 1, 2, 0)>>]
    [] k = "relover" -> [o EXCEPT !.rels = @ \o <<Reloc(2, 17, 1, 2, 0)>>]
    [] k = "relfar" -> [o EXCEPT !.rels = @ \o <<Reloc(2, 2147483000, 2, 2, 0)>>]
    [] k = "relneg" -> [o EXCEPT !.rels = @ \o <<Reloc(1, 13, 2, 2, 0)>>]
    [] k = "relzero" -> [o EXCEPT !.rels = @ \o <<Reloc(2, 23, 0, 1, 0)>>]
    [] k = "got" -> [o EXCEPT !.secs[3].n = ".got"]
    [] k = "interp" -> [o EXCEPT !.secs[2].n = ".interp"]
    [] k = "strtab" -> [o EXCEPT !.secs[3].n = ".strtab"]
    [] k = "shstrtab" -> [o EXCEPT !.secs[3].n = ".shstrtab"]
    [] k = "noname" -> [o EXCEPT !.secs[3].n = ""]
    [] k = "hash" -> [o EXCEPT !.secs[3].n = ".hash"]
    [] k = "gnuhash" -> [o EXCEPT !.secs[3].n = ".gnu.hash"]
    [] k = "align3" -> [o EXCEPT !.secs[3].a = 3]
    [] k = "align6" -> [o EXCEPT !.secs[3].a = 6]
    [] k = "alignneg" -> [o EXCEPT !.secs[3].a = 2147483647]
    [] k = "align0" -> [o EXCEPT !.secs[3].a = 0]
    [] k = "align2k" -> [o EXCEPT !.secs[3].a = 2048]
    [] k = "biggest" -> [o EXCEPT !.secs[3].t = NOBITS, !.secs[3].n = ".bss", !.secs[3].s = 2147483647]
    [] OTHER -> o

(* where the bad input is, and whether it is used *)
Spots == {"first", "second", "member", "othermember", "unusedmember", "lib", "libneeded", "libunused", "libasobj", "objaslib", "nothing"}
Argv(s) == CASE s = "first" -> <<"bad.o", "f.o">> [] s = "second" -> <<"a.o", "bad.o">> [] s \in {"member", "othermember", "unusedmember"} -> <<"a.o", "x.a">>
             [] s = "lib" -> <<"a.o", "bad.so">> [] s = "libneeded" -> <<"--as-needed", "a.o", "bad.so">> [] s = "libunused" -> <<"a.o", "f.o", "bad.so">>
             [] s = "libasobj" -> <<"a.o", "f.o", "bad.so", "bad.so">> [] s = "objaslib" -> <<"a.o", "f.o", "-L.", "-lbad">> [] OTHER -> <<"a.o", "f.o">>
Files(s, h, k) ==
  LET bad == Broken(Wrong(IF s = "first" THEN Start ELSE Def("g_f"), h), k)
  IN <<ObjFile("/S/a.o", Start), ObjFile("/S/f.o", Def("g_f")), ObjFile("/S/bad.o", bad),
       SoFile("/S/bad.so", Wrong(LibWith(k), h)), [ObjFile("/S/libbad.so", bad) EXCEPT !.k = "obj"],
       ArFile("/S/x.a", CASE s = "member" -> <<Member("f.o", bad), Member("g.o", Def("g_f"))>>
                          [] s = "othermember" -> <<Member("f.o", Def("g_f")), Member("b.o", bad)>>
                          [] OTHER -> <<Member("r.o", Broken(Wrong(Def("g_z"), h), k)), Member("f.o", Def("g_f"))>>)>>
(* a file whose type says shared library is taken for one *)
Clean(s, h) == IF h = <<"et", 1>> THEN s \notin {"lib", "libneeded", "libunused", "libasobj"} ELSE h # <<"et", 3>> \/ s \in {"lib", "libneeded", "libunused", "libasobj", "member", "othermember", "unusedmember"}
Combos == {<<s, h, "none">> : s \in Spots, h \in Heads} \cup {<<s, <<"", 0>>, k>> : s \in Spots \ {"lib", "libneeded", "libunused", "libasobj"}, k \in Refs}
          \cup {<<s, h, k>> : s \in {"first", "second", "member"}, h \in {<<"et", 2>>, <<"mach", 3>>}, k \in Refs}
          \cup {<<s, h, k>> : s \in {"lib", "libneeded"}, h \in {<<"", 0>>, <<"mach", 3>>}, k \in LibKinds}
CS == AsSeq({c \in Combos : Clean(c[1], c[2])})
(* what the spec sees of a file of unknown class or of the wrong type *)
Seen(f, h) == IF f.k = "so" /\ h[1] = "et" /\ h[2] # 3 THEN [k |-> "obj", b |-> f.b, s |-> f.s, o |-> [Def("g_f") EXCEPT !.et = h[2], !.ok = FALSE]]
              ELSE f
AllWorlds ==
  [i \in DOMAIN CS |->
     LET fs == Files(CS[i][1], CS[i][2], CS[i][3])
     IN MakeWorld("bad" \o ToString(i), "bad", Argv(CS[i][1]), [k \in DOMAIN fs |-> Seen(fs[k], CS[i][2])])]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
(* nothing of a bad input is ever part of a program *)
OnlyGood == pc \in {"ok", "unsup", "either"} => \A u \in DOMAIN units : GoodObject(ObjectOf(units[u])) /\ RelocationsRefer(ObjectOf(units[u]))
=============================================================================
