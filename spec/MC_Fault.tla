-------------------------------- MODULE MC_Fault --------------------------------
(* What can be at the place where the program goes, crossed with the ways   *)
(* in which a link ends, and with devices that fail.                         *)
EXTENDS Rules, Build

Start == Object(<<Text(16), Data(8)>>, <<Symbol("_start", 1, 2, 1, 0, 1)>>, <<>>)
Refers(n) == Object(<<Text(16), Data(8)>>, <<Symbol("_start", 1, 2, 1, 0, 1), Symbol(n, 1, 0, 0, 0, 0)>>,
                    <<Reloc(2, 0, 1, 2, 0)>>)
Far == Object(<<Text(16), Data(8)>>, <<Symbol("_start", 1, 2, 1, 0, 1)>>, <<Reloc(2, 0, 10, 1, -1000000000)>>)
Also == Object(<<Text(16)>>, <<Symbol("_start", 1, 2, 1, 4, 1)>>, <<>>)
Big == Object(<<Text(16), Section(".data", 1, 3, 8, 20000, "")>>, <<Symbol("_start", 1, 2, 1, 0, 1)>>, <<>>)

(* how the link ends, up to the writing *)
Endings == <<"ok", "big", "unres", "clash", "missing", "text", "reloc", "option", "class", "secret", "dir", "badar", "so">>
Inputs(e) ==
  CASE e = "ok" -> <<"a.o">> [] e = "big" -> <<"big.o">> [] e = "unres" -> <<"ref.o">> [] e = "clash" -> <<"a.o", "b.o">>
    [] e = "missing" -> <<"a.o", "nothere.o">> [] e = "text" -> <<"a.o", "t.txt">> [] e = "reloc" -> <<"far.o">>
    [] e = "option" -> <<"a.o", "-m", "elf_i386">> [] e = "class" -> <<"a.o", "c.o">> [] e = "secret" -> <<"a.o", "s.o">>
    [] e = "dir" -> <<"a.o", "d">> [] e = "badar" -> <<"ref.o", "x.a">> [] OTHER -> <<"ref.o", "l.so">>

(* the path, what is there, and how it is protected *)
Place(o, old, mode, dirs, ro, links) == [o |-> o, old |-> old, mode |-> mode, dirs |-> dirs, ro |-> ro, links |-> links]
NoDirs == <<>>
Places == <<
  Place("out", "", 0, NoDirs, NoDirs, NoDirs),
  Place("out", "old text", 420, NoDirs, NoDirs, NoDirs),
  Place("out", "#!/bin/sh", 493, NoDirs, NoDirs, NoDirs),
  Place("out", "prog", 493, NoDirs, NoDirs, NoDirs),
  Place("out", "locked", 292, NoDirs, NoDirs, NoDirs),
  Place("out", "secret", 128, NoDirs, NoDirs, NoDirs),
  Place("d/out", "", 0, <<"/S/d">>, NoDirs, NoDirs),
  Place("d/../d/./out", "x", 384, <<"/S/d">>, NoDirs, NoDirs),
  Place("nodir/out", "", 0, NoDirs, NoDirs, NoDirs),
  Place("ro/out", "", 0, <<"/S/ro">>, <<"/S/ro">>, NoDirs),
  Place("ro/out", "old", 493, <<"/S/ro">>, <<"/S/ro">>, NoDirs),
  Place("d", "", 0, <<"/S/d">>, NoDirs, NoDirs),
  Place("d/", "", 0, <<"/S/d">>, NoDirs, NoDirs),
  Place("out/", "", 0, NoDirs, NoDirs, NoDirs),
  Place("a.o/out", "", 0, NoDirs, NoDirs, NoDirs),
  Place("", "", 0, NoDirs, NoDirs, NoDirs),
  Place(".", "", 0, NoDirs, NoDirs, NoDirs),
  Place("ln/out", "", 0, <<"/S/d">>, NoDirs, <<[b |-> "/S/ln", t |-> "/S/d"]>>),
  Place("d/x/y/../../out", "", 0, <<"/S/d/x/y">>, NoDirs, NoDirs),
  Place("/S/abs", "y", 420, NoDirs, NoDirs, NoDirs),
  Place("a.o", "", 0, NoDirs, NoDirs, NoDirs),
  Place("./d/../ref.o", "", 0, <<"/S/d">>, NoDirs, NoDirs),
  Place("same", "", 0, NoDirs, NoDirs, <<[b |-> "/S/same", t |-> "/S/a.o"]>>),
  Place("t.txt", "", 0, NoDirs, NoDirs, NoDirs),
  Place("-", "", 0, NoDirs, NoDirs, NoDirs)>>
Devices == <<"", "full", "0", "1", "100", "4095", "4096", "9000">>

Canonical(o) == CASE o = "d/../d/./out" -> "/S/d/out" [] o = "/S/abs" -> "/S/abs" [] OTHER -> "/S/" \o o
Combos == {<<p, e, v>> \in (1..Len(Places)) \X (1..Len(Endings)) \X (1..Len(Devices)) :
             \/ v = 1
             \/ e <= 2 /\ Places[p].o \in {"out", "ro/out", "d/out"}
             \/ v = 2 /\ e <= 5}
CS == AsSeq(Combos)
Order(s, i) == IF i % 2 = 0 THEN <<"-o", s>> ELSE <<>>
AllWorlds ==
  [i \in DOMAIN CS |->
     LET p == Places[CS[i][1]]
         e == Endings[CS[i][2]]
         v == Devices[CS[i][3]]
         c == Canonical(p.o)
         base == MakeWorld("fault" \o ToString(i), "fault",
                   (IF i % 3 = 0 THEN <<"-o", p.o>> ELSE <<>>) \o Inputs(e) \o (IF i % 3 # 0 THEN <<"-o", p.o>> ELSE <<>>),
                   <<ObjFile("/S/a.o", Start), ObjFile("/S/b.o", Also), ObjFile("/S/ref.o", Refers("g_none")),
                     ObjFile("/S/big.o", Big), ObjFile("/S/far.o", Far), ObjFile("/S/c.o", [Start EXCEPT !.cls = 1]),
                     TextFile("/S/t.txt", "hello"), ArFile("/S/x.a", <<Member("m.o", Also)>>),
                     SoFile("/S/l.so", Shared("l.so", <<Exports("g_other", 2, 4)>>, <<"g_none">>))>>
                   \o <<ObjFile("/S/s.o", Also) @@ ("mode" :> 0)>>
                   \o (IF p.old = "" THEN <<>>
                       ELSE IF p.old = "prog" THEN <<ObjFile(c, [Start EXCEPT !.et = 2]) @@ ("mode" :> p.mode)>>
                       ELSE <<TextFile(c, p.old) @@ ("mode" :> p.mode)>>))
     IN base @@ ("mkdirs" :> p.dirs)
          @@ ("olds" :> IF p.old = "" THEN <<>> ELSE <<c>>)
          @@ ("repeat" :> IF i % 4 = 0 THEN 1 ELSE 0)
          @@ (IF v = "full" THEN ("stdout" :> "full") ELSE IF v = "" THEN <<>> ELSE ("fsize" :> atoi(v)) @@ ("noimg" :> FALSE))]
Full(x, i) ==
  LET p == Places[CS[i][1]]
      v == Devices[CS[i][3]]
      fixd == [x EXCEPT !.links = p.links, !.rodirs = p.ro, !.dirs = <<"", "/S">> \o p.dirs \o
                 (IF p.dirs = <<"/S/d/x/y">> THEN <<"/S/d", "/S/d/x">> ELSE <<>>),
                 !.fault = IF v \in {"", "full"} THEN "" ELSE "fsize"]
      ReadOnlyPlaces(f) == IF "mode" \notin DOMAIN f THEN f
                      ELSE (IF f.mode < 256 THEN f @@ ("hidden" :> TRUE) ELSE f)
                           @@ (IF (f.mode \div 128) % 2 = 0 THEN ("locked" :> TRUE) ELSE <<>>)
  IN [fixd EXCEPT !.files = [k \in DOMAIN @ |-> ReadOnlyPlaces(@[k])]]

ASSUME TLCSet(1, [i \in DOMAIN AllWorlds |-> Full(AllWorlds[i], i)])
ASSUME Export

(* a program is only ever written over nothing or over something that isn't *)
(* an input                                                                  *)
KeepsInputs == pc \in {"ok", "either"} =>
  \A f \in {units[u][1] : u \in DOMAIN units} \cup {libs[l].f : l \in DOMAIN libs} : Canon(opt.out) # File(f).b
=============================================================================
