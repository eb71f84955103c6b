------------------------------ MODULE MC_Needed ------------------------------
(* Which shared libraries the program needs, in which order and by which    *)
(* name.                                                                     *)
EXTENDS Rules, Build

Flag == {"--as-needed", "--no-as-needed"}
Sonames == {"", "libq.so.1", "libr.so"}
Defs == {<<"a">>, <<"al">>, <<"ap">>, <<"b">>, <<"a", "b">>, <<>>}
Third == {"", "again", "loader"}
Refs == {"a", "b", "weak", "own", "hidden"}
(* options that mean nothing to the libraries *)
Between == <<<<>>, <<>>, <<"--start-group">>, <<"--end-group">>, <<"-z", "now">>, <<"--eh-frame-hdr">>, <<"--hash-style=gnu">>, <<"-L.">>, <<"-m", "elf_x86_64">>>>
Bw(i, k) == Between[(((i \div k) + i) % Len(Between)) + 1]
Dyn == {<<>>, <<"-dynamic-linker", "/some/where/libr.so">>}

Main(r) ==
  LET s == CASE r = "a" -> Symbol("g_a", 1, 0, 0, 0, 0) [] r = "b" -> Symbol("g_b", 1, 0, 0, 0, 0)
             [] r = "hidden" -> WithVis(Symbol("g_a", 2, 0, 0, 0, 0), 2)
             [] r = "weak" -> Symbol("g_a", 2, 0, 0, 0, 0) [] OTHER -> Symbol("g_a", 1, 1, 1, 0, 8)
  IN Object(<<Data(16), Text(16)>>, <<Symbol("_start", 1, 2, 2, 0, 1), s>>, <<Reloc(1, 0, 1, 2, 0)>>)
Lib(b, so, names) == SoFile(b, Shared(so, [i \in DOMAIN names |-> CASE names[i] = "al" -> [Exports("g_a", 2, 8) EXCEPT !.b = 0]     \* local in the library
                                                                 [] names[i] = "ap" -> [Exports("g_a", 2, 8) EXCEPT !.o = 3]     \* protected in the library
                                                                 [] OTHER -> Exports("g_" \o names[i], 2, 8)], <<"g_a">>))

Params == Pick(AsSeq(Flag \X Sonames \X Defs \X Flag \X Sonames \X Defs \X Third \X Refs \X Dyn), 1000, 12000)
AllWorlds ==
  [i \in DOMAIN Params |->
     LET p == Params[i]
     IN MakeWorld("needed" \o ToString(i), "needed",
          p[9] \o <<p[1]>> \o Bw(i, 2) \o <<"d/libq.so">> \o Bw(i, 3) \o <<p[4]>> \o Bw(i, 5) \o <<"libr.so">> \o Bw(i, 7) \o <<"a.o">>
          \o (CASE p[7] = "again" -> <<p[1], "./libr.so", "--no-as-needed">>
                [] p[7] = "loader" -> <<"--no-as-needed", "libl.so">>
                [] OTHER -> <<>>),
          <<ObjFile("/S/a.o", Main(p[8])), Lib("/S/d/libq.so", p[2], p[3]), Lib("/S/libr.so", p[5], p[6]),
            Lib("/S/libl.so", "ld-linux-x86-64.so.2", <<"z">>)>>)]
WithDirs == [i \in DOMAIN AllWorlds |-> [AllWorlds[i] EXCEPT !.dirs = <<"", "/S", "/S/d">>]]
ASSUME TLCSet(1, WithDirs)
ASSUME Export
=============================================================================
