-------------------------------- MODULE MC_Links --------------------------------
(* Inputs that are reached by several paths: through symbolic links, through *)
(* directories and back, by search and by path.                              *)
EXTENDS Rules, Build

Start == Object(<<Text(16), Data(24)>>,
                <<Symbol("_start", 1, 2, 1, 0, 1), Symbol("g_f", 1, 0, 0, 0, 0), Symbol("g_o", 1, 0, 0, 0, 0)>>,
                <<Reloc(2, 0, 1, 2, 0), Reloc(2, 8, 1, 3, 0)>>)
Def(n, sz) == Object(<<Text(16), Data(24)>>, <<Symbol(n, 1, 1, 2, sz, 8)>>, <<>>)
Weak2(n) == Object(<<Text(16), Data(24)>>, <<Symbol(n, 2, 1, 2, 16, 8)>>, <<>>)
Ar(b, k) == ArFile(b, <<Member("f.o", Def("g_f", k)), Member("o.o", Def("g_o", k)), Member("z.o", Def("g_z", k))>>)
So1(b, n, z) == SoFile(b, Shared(n, <<Exports("g_f", 2, 4), Exports("g_o", 1, z)>>, <<>>))

Files == <<ObjFile("/S/a.o", Start), Ar("/S/lib/libx.a", 8), Ar("/S/lib2/libx.a", 16), So1("/S/lib/real.so", "", 8),
           So1("/S/lib2/named.so.1", "named.so", 16), ObjFile("/S/lib/w.o", Weak2("g_f")),
           TextFile("/S/lib/s.ld", "GROUP ( /S/lib/libx.a AS_NEEDED ( /S/l/real.so ) )"),
           TextFile("/S/lib2/loop.ld", "GROUP ( /S/again.ld )")>>
Lns == <<[b |-> "/S/l", t |-> "/S/lib"], [b |-> "/S/lib/up", t |-> "/S"], [b |-> "/S/y.a", t |-> "/S/lib/libx.a"],
         [b |-> "/S/lib2/liby.a", t |-> "/S/lib/libx.a"], [b |-> "/S/lib/libr.so", t |-> "/S/lib/real.so"],
         [b |-> "/S/lib2/libr.so", t |-> "/S/nowhere"], [b |-> "/S/libn.so", t |-> "/S/lib2/named.so.1"],
         [b |-> "/S/other.so", t |-> "/S/lib/real.so"], [b |-> "/S/w2.o", t |-> "/S/lib/w.o"],
         [b |-> "/S/again.ld", t |-> "/S/lib2/loop.ld"], [b |-> "/S/s2", t |-> "/S/lib/s.ld"],
         [b |-> "/S/gone", t |-> "/S/nodir"], [b |-> "/S/lib/libd.a", t |-> "/S/lib2"]>>
Ways == <<"lib/libx.a", "l/libx.a", "y.a", "-ly", "l/up/lib/libx.a", "lib2/../y.a", "l/../lib/libx.a", "lib2/libx.a", "-lx", "lib/libr.so",
          "other.so", "-lr", "l/real.so", "libn.so", "-ln", "w2.o", "lib/w.o", "again.ld", "s2", "l/s.ld", "gone/x.o", "-ld", "gone",
          "lib2/libr.so", "l/up/l/up/w2.o", "lib/up/lib2/named.so.1">>
Dirs == <<<<"-Llib">>, <<"-Llib2", "-Ll">>, <<"-L", "l", "-L.", "-Lgone">>, <<"-Llib2", "-L", "l/up", "-Llib">>, <<"-Lnodir", "-L/S/l/up/l">>>>
Pairs == {<<x, y, d>> \in (1..Len(Ways)) \X (1..Len(Ways)) \X (1..Len(Dirs)) : TRUE}
PS == Pick(AsSeq(Pairs), 700, 4000)
AllWorlds ==
  [i \in DOMAIN PS |->
     [MakeWorld("links" \o ToString(i), "links",
        Dirs[PS[i][3]] \o (IF i % 2 = 0 THEN <<"--as-needed">> ELSE <<>>) \o <<"a.o", Ways[PS[i][1]], Ways[PS[i][2]]>>
          \o (IF i % 7 = 0 THEN <<Ways[PS[i][1]]>> ELSE <<>>), Files)
      EXCEPT !.links = Lns, !.dirs = <<"", "/S", "/S/lib", "/S/lib2">>]]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export

(* however often an archive is named, its members are there once, and an    *)
(* object that is named twice clashes with itself                            *)
OneEach ==
  /\ \A i, j \in DOMAIN ars : i # j => ars[i] # ars[j]
  /\ pc = "fail" => err.k \in {"missing", "clash", "script", "unresolved"}
=============================================================================
