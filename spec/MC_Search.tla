------------------------------ MODULE MC_Search ------------------------------
(* Where inputs are looked for: every distribution of the candidates over   *)
(* two directories and the working directory, with the options in every     *)
(* arrangement; a candidate is a file, a directory of that name, or absent.  *)
EXTENDS Rules, Build

Places == {"/S/", "/S/d1/", "/S/d2/"}
Files == {"libq.so", "libq.a"}
Present == SUBSET (Places \X Files)
(* which of those that are there are directories *)
Distributions == {<<p, {}>> : p \in Present} \cup UNION {{<<p, d>> : d \in (SUBSET p) \ {{}}} : p \in Present}

Arrangements ==
  { <<"-Ld1", "-Ld2", "-lq">>, <<"-lq", "-L", "d1", "-L", "d2">>, <<"-L", "d2", "-l", "q", "-Ld1">>,
    <<"-Lnodir", "-lq", "-Ld2">>, <<"-lq">>, <<"-L.", "-lq">>, <<"-L/S/d2", "-L./d1/", "-L.", "-lq">>,
    <<"-Ld1", "libq.so">>, <<"libq.a", "-Ld1", "-Ld2">>, <<"d1/libq.so">>, <<"-L", "d1", "../S/d2/libq.a">>,
    <<"-L", "d1/../d2", "-lq", "-lq">>, <<"-L", "", "-lq">>, <<"-Ld1", "-Ld2", "--as-needed", "-lq">> }

Mark(p, f) == "at_" \o (CASE p = "/S/" -> "cwd" [] p = "/S/d1/" -> "d1" [] OTHER -> "d2")
Candidate(c) ==
  IF c[2] = "libq.so"
  THEN SoFile(c[1] \o c[2], Shared(Mark(c[1], c[2]) \o ".so", <<Exports("g_q", 2, 8)>>, <<>>))
  ELSE ArFile(c[1] \o c[2], <<Member("q.o", Object(<<Data(16)>>,
                <<Symbol(Mark(c[1], c[2]), 0, 1, 1, 0, 8), Symbol("g_q", 1, 1, 1, 8, 8)>>, <<>>))>>)
Main == Object(<<Data(16), Text(16)>>, <<Symbol("_start", 1, 2, 2, 0, 1), Symbol("g_q", 2, 0, 0, 0, 0),
                                         Symbol("g_q", 1, 0, 0, 0, 0)>>, <<Reloc(1, 0, 1, 2, 0)>>)

Params == AsSeq(Arrangements \X {<<p, {}>> : p \in Present})
          \o Pick(AsSeq(Arrangements \X {d \in Distributions : d[2] # {}}), 700, 10000)
AllWorlds ==
  [i \in DOMAIN Params |->
     LET p == Params[i]
         ds == AsSeq(p[2][2])
     IN [MakeWorld("search" \o ToString(i), "search", <<"a.o">> \o p[1],
           <<ObjFile("/S/a.o", Main)>> \o LET s == AsSeq(p[2][1] \ p[2][2]) IN [j \in DOMAIN s |-> Candidate(s[j])])
         EXCEPT !.dirs = <<"", "/S", "/S/d1", "/S/d2">> \o [j \in DOMAIN ds |-> ds[j][1] \o ds[j][2]]]]
WithMk == [i \in DOMAIN AllWorlds |-> AllWorlds[i] @@ [mkdirs |-> AllWorlds[i].dirs]]
ASSUME TLCSet(1, WithMk)
ASSUME Export

(* the rule, stated without the machine: a library name means the shared    *)
(* library in the first directory that has one, else the archive in the     *)
(* first directory that has one                                              *)
Has(d, n) == Stat(Join(d, n)) # 0
FoundRight ==
  pc \notin {"cmd", "search", "fail", "help", "any"} =>
    \A l \in DOMAIN libs : libs[l].n # "libq.so" \/
      \/ \E a \in DOMAIN World.argv : ~StartsWith(World.argv[a], "-") /\ Stat(World.argv[a]) = libs[l].f
      \/ \E i \in DOMAIN opt.dirs : /\ Stat(Join(opt.dirs[i], "libq.so")) = libs[l].f
                                    /\ \A j \in 1..(i - 1) : ~Has(opt.dirs[j], "libq.so")
=============================================================================
