------------------------------- MODULE MC_Bind -------------------------------
(* Every way in which one name can occur in three objects, next to a shared *)
(* library that defines it as a function, as an object, refers to it or     *)
(* doesn't know it.                                                          *)
EXTENDS Rules, Build

Occ == {"no", "local", "ref", "wref", "def", "wdef"}
LibKinds == {"none", "func", "object", "refers"}

(* object i: the name occurs as k says, every occurrence is referred to *)
Sym0(k, i) ==
  CASE k = "local" -> Symbol("g_x", 0, 1, 1, 8 * i, 8)
    [] k = "ref" -> Symbol("g_x", 1, 0, 0, 0, 0)
    [] k = "wref" -> Symbol("g_x", 2, 0, 0, 0, 0)
    [] k = "def" -> Symbol("g_x", 1, 1, 1, 8 * i, 8)
    [] OTHER -> Symbol("g_x", 2, 1, 1, 8 * i + 4, 4)
(* with a visibility *)
Sym(k, i, v) == IF k = "local" THEN Sym0(k, i)
                ELSE IF v = UNIQUE THEN IF k = "wdef" THEN [Sym0(k, i) EXCEPT !.b = UNIQUE] ELSE Sym0(k, i)
                ELSE WithVis(Sym0(k, i), v)
Obj(k, i, v) ==
  LET own == Symbol("l_" \o ToString(i), 0, 1, 1, 8, 8)
      start == IF i = 1 THEN <<Symbol("_start", 1, 2, 2, 0, 1)>> ELSE <<>>
      syms == IF k = "local" THEN <<Sym(k, i, v), own>> \o start
              ELSE IF k = "no" THEN <<own>> \o start
              ELSE <<own, Sym(k, i, v)>> \o start
      y == IF k = "local" THEN 1 ELSE 2
      rels == <<Reloc(1, 0, 1, IF k = "local" THEN 2 ELSE 1, 3)>> \o IF k = "no" THEN <<>> ELSE <<Reloc(1, 8 * i + 8, 1, y, i)>>
  IN Object(<<Data(48), Text(16)>>, syms, rels)

Lib(k) == SoFile("/S/libq.so",
                 CASE k = "func" -> Shared("libq.so.1", <<Exports("g_x", 2, 8)>>, <<>>)
                   [] k = "unique" -> Shared("libq.so.1", <<[Exports("g_x", 1, 24) EXCEPT !.b = UNIQUE]>>, <<>>)
                   [] k = "object" -> Shared("libq.so.1", <<Exports("g_x", 1, 24)>>, <<>>)
                   [] OTHER -> Shared("libq.so.1", <<Exports("g_other", 2, 8)>>, <<"g_x">>))

Default == <<0, 0, 0>>
Visibilities == {v \in (0..3) \X (0..3) \X (0..3) : v # Default}
Params == LET s == AsSeq(Occ \X Occ \X Occ \X LibKinds)
              m == AsSeq((Occ \ {"local", "no"}) \X Occ \X Occ \X LibKinds \X Visibilities)
              u == AsSeq((Occ \ {"def"}) \X (Occ \ {"def"}) \X (Occ \ {"def"}) \X {"none", "object", "unique"}
                         \X {<<UNIQUE, UNIQUE, UNIQUE>>, <<UNIQUE, 0, UNIQUE>>, <<0, UNIQUE, UNIQUE>>})
          IN [i \in DOMAIN s |-> s[i] \o <<Default>>] \o Pick(m, 400, 5000) \o Pick(u, 150, 1500)
AllWorlds ==
  [i \in DOMAIN Params |->
     LET p == Params[i]
     IN MakeWorld("bind" \o ToString(i), "bind",
          <<"-o", "out", "a.o", "b.o", "c.o">> \o (IF p[4] = "none" THEN <<>> ELSE <<"libq.so">>),
          <<ObjFile("/S/a.o", Obj(p[1], 1, p[5][1])), ObjFile("/S/b.o", Obj(p[2], 2, p[5][2])), ObjFile("/S/c.o", Obj(p[3], 3, p[5][3]))>>
          \o (IF p[4] = "none" THEN <<>> ELSE <<Lib(p[4])>>))]

ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
