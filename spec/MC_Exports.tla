------------------------------ MODULE MC_Exports ------------------------------
(* The program's definitions that the shared libraries have to find: every   *)
(* kind of definition, next to two libraries that refer to the name, define  *)
(* it themselves or keep it local, and that are needed or not.               *)
EXTENDS Rules, Build

Kinds == {"no", "ref", "wref", "local", "func", "weak", "object", "bss", "tls", "abs", "unique", "internal", "hidden", "protected",
          "weakthenstrong", "hiddenref", "member", "idle", "late"}
LibKinds == {"none", "refers", "func", "object", "tls", "protected", "local", "other"}

Global(k) ==
  CASE k = "ref" -> Symbol("g_x", 1, 0, 0, 0, 0) [] k = "wref" -> Symbol("g_x", 2, 0, 0, 0, 0)
    [] k = "local" -> Symbol("g_x", 0, 1, 1, 16, 8) [] k = "func" -> Symbol("g_x", 1, 2, 2, 4, 12)
    [] k = "weak" -> Symbol("g_x", 2, 2, 2, 4, 8) [] k = "object" -> Symbol("g_x", 1, 1, 1, 16, 8)
    [] k = "bss" -> Symbol("g_x", 1, 1, 3, 8, 8) [] k = "tls" -> Symbol("g_x", 1, 6, 4, 8, 8)
    [] k = "abs" -> Symbol("g_x", 1, 0, 65521, 4660, 0) [] k = "unique" -> Symbol("g_x", 10, 1, 1, 24, 4)
    [] k = "internal" -> WithVis(Symbol("g_x", 1, 2, 2, 4, 8), 1) [] k = "hidden" -> WithVis(Symbol("g_x", 1, 1, 1, 16, 8), 2)
    [] k = "protected" -> WithVis(Symbol("g_x", 1, 1, 1, 8, 8), 3) [] k = "weakthenstrong" -> Symbol("g_x", 2, 1, 1, 0, 4)
    [] k = "hiddenref" -> Symbol("g_x", 1, 2, 2, 4, 8) [] k \in {"member", "idle", "late"} -> Symbol("g_x", 1, 0, 0, 0, 0)
    [] OTHER -> Symbol("g_w", 1, 1, 1, 8, 8)
Secs == <<Data(32), Text(16), Bss(24, 16), Section(".tdata", 1, 1027, 8, 16, Zeros(16))>>
Main(k) ==
  LET s == IF k = "idle" THEN Symbol("g_w", 1, 1, 1, 8, 8) ELSE Global(k)
      start == Symbol("_start", 1, 2, 2, 0, 1)
      (* names that share the tables with it *)
      more == <<Symbol("g_v", 1, 2, 2, 8, 4), Symbol("g_u", 2, 1, 1, 0, 4)>>
  IN IF s.b = 0 THEN Object(Secs, <<s, start>> \o more, <<>>)
     ELSE Object(Secs, <<start, s>> \o more, IF k = "tls" THEN <<>> ELSE <<Reloc(1, 0, 1, 2, 0)>>)
Second(k) ==
  CASE k = "weakthenstrong" -> Object(<<Data(16), Text(4)>>, <<Symbol("g_x", 1, 1, 1, 8, 8)>>, <<>>)
    [] k = "hiddenref" -> Object(<<Data(16), Text(4)>>, <<WithVis(Symbol("g_x", 1, 0, 0, 0, 0), 2)>>, <<Reloc(1, 0, 1, 1, 0)>>)
    [] OTHER -> Object(<<Data(8), Text(4)>>, <<Symbol("g_t", 1, 2, 2, 0, 4)>>, <<>>)
Mem == Object(<<Data(8), Text(32)>>, <<Symbol("g_x", 1, 2, 2, 16, 8), Symbol("g_s", 1, 1, 1, 0, 8)>>, <<>>)

Lib(b, k, so) ==
  LET one(t, z, v, bind) == Shared(so, <<[Exports("g_x", t, z) EXCEPT !.o = v, !.b = bind], Exports("g_r" \o so, 2, 8)>>, <<"g_v", "g_t", "g_nobody">>)
  IN SoFile(b,
       CASE k = "func" -> one(2, 8, 0, 1) [] k = "object" -> one(1, 16, 0, 1) [] k = "tls" -> one(6, 8, 0, 1)
         [] k = "protected" -> one(1, 8, 3, 1) [] k = "local" -> one(1, 8, 0, 0)
         [] k = "refers" -> Shared(so, <<Exports("g_q", 2, 8), Exports("g_u", 1, 4)>>, <<"g_x", "g_s">>)
         [] OTHER -> Shared(so, <<Exports("g_q", 2, 8)>>, <<"g_y">>))

Styles == {"gnu", "sysv", "both"}
(* a thread-local name is one everywhere, and nothing refers to it *)
Sensible(p) == ("tls" \in {p[1], p[2], p[3]}) => /\ p[1] \in {"no", "local", "tls", "idle"}
                                                 /\ \A i \in {2, 3} : p[i] \in {"tls", "none", "refers", "other"}
Params == Pick(AsSeq({p \in Kinds \X LibKinds \X LibKinds \X BOOLEAN \X Styles : Sensible(p)}), 1000, 12000)
AllWorlds ==
  [i \in DOMAIN Params |->
     LET p == Params[i]
         lib(k, n) == IF k = "none" THEN <<>> ELSE <<n>>
     IN MakeWorld("exports" \o ToString(i), "exports",
          <<"--hash-style=" \o p[5], "a.o">> \o lib(p[2], "libq.so") \o (IF p[4] THEN <<"--as-needed">> ELSE <<>>) \o lib(p[3], "libr.so")
          \o <<"b.o">> \o (IF p[1] \in {"member", "idle", "late"} THEN <<"libm.a">> ELSE <<>>),
          <<ObjFile("/S/a.o", Main(p[1])), ObjFile("/S/b.o", Second(p[1])), ArFile("/S/libm.a", <<Member("m.o", Mem)>>)>>
          \o (IF p[2] = "none" THEN <<>> ELSE <<Lib("/S/libq.so", p[2], "libq.so")>>)
          \o (IF p[3] = "none" THEN <<>> ELSE <<Lib("/S/libr.so", p[3], "libr.so")>>))]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
