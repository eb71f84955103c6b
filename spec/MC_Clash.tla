-------------------------------- MODULE MC_Clash --------------------------------
(* Two names in objects, archive members and libraries, in every strength   *)
(* and kind: which of them clash.                                            *)
EXTENDS Rules, Build

(* how a file has a name: with which binding, type, and where *)
Occ == {"no", "ref", "def", "deff", "wdef", "local", "abs", "bss", "wref", "tls"}
Strong1 == {"def", "deff", "abs", "bss", "tls"}
S(n, k) == CASE k = "ref" -> <<Symbol(n, 1, 0, 0, 0, 0)>> [] k = "wref" -> <<Symbol(n, 2, 0, 0, 0, 0)>>
             [] k = "def" -> <<Symbol(n, 1, 1, 1, 8, 8)>> [] k = "deff" -> <<Symbol(n, 1, 2, 2, 4, 2)>>
             [] k = "wdef" -> <<Symbol(n, 2, 1, 1, 4, 4)>> [] k = "abs" -> <<Symbol(n, 1, 0, 65521, 77, 0)>>
             [] k = "bss" -> <<Symbol(n, 1, 1, 3, 0, 16)>> [] k = "tls" -> <<Symbol(n, 1, 6, 4, 0, 4)>>
             [] OTHER -> <<>>
L(n, k) == IF k = "local" THEN <<Symbol(n, 0, 1, 1, 0, 4)>> ELSE <<>>
Obj(kx, ky, more) == Object(<<Data(16), Text(16), Bss(16, 8), Section(".tdata", 1, 1027, 4, 4, "01020304")>>,
                            L("g_x", kx) \o L("g_y", ky) \o S("g_x", kx) \o S("g_y", ky) \o more, <<>>)
TypesFit(a, b) == (a = "tls") = (b = "tls") \/ a \in {"no", "local"} \/ b \in {"no", "local"}
Pool == {p \in Occ \X Occ : p[1] # "local" \/ p[2] \in {"no", "def"}}
Triples == {t \in Pool \X Pool : TypesFit(t[1][1], t[2][1]) /\ TypesFit(t[1][2], t[2][2])}
TS == AsSeq(Triples)
PS == AsSeq(Pool)
Shapes == <<"ab", "ba", "am", "amm", "abm", "ma", "am2", "lam">>
Count == IF Thorough THEN 14000 ELSE 1000
Case(i) == LET t == TS[(Rnd(i, 1) % Len(TS)) + 1]
           IN [a |-> t[1], b |-> t[2], c |-> PS[(Rnd(i, 2) % Len(PS)) + 1], sh |-> Shapes[(i % Len(Shapes)) + 1]]
Params == [i \in 1..Count |-> Case(i)]
Fit3(c) == /\ TypesFit(c.a[1], c.c[1]) /\ TypesFit(c.a[2], c.c[2]) /\ TypesFit(c.b[1], c.c[1]) /\ TypesFit(c.b[2], c.c[2])
Third(c) == IF Fit3(c) THEN c.c ELSE <<"no", "wref">>

St == <<Symbol("_start", 1, 2, 2, 0, 1), Symbol("g_m", 1, 0, 0, 0, 0), Symbol("g_n", 1, 0, 0, 0, 0)>>
St0 == <<Symbol("_start", 1, 2, 2, 0, 1)>>
M(n) == <<Symbol(n, 1, 1, 1, 0, 1)>>
Argv(s) == CASE s = "ab" -> <<"a.o", "b.o">> [] s = "ba" -> <<"b.o", "a.o">> [] s = "am" -> <<"a.o", "libx.a">>
             [] s = "amm" -> <<"a.o", "libx.a", "liby.a">> [] s = "abm" -> <<"a.o", "libx.a", "b.o">>
             [] s = "ma" -> <<"liby.a", "libx.a", "a.o">> [] s = "am2" -> <<"a.o", "libxy.a">>
             [] OTHER -> <<"libz.so", "a.o", "libx.a">>
AllWorlds ==
  [i \in DOMAIN Params |->
     LET c == Params[i]
         st == IF c.sh \in {"ab", "ba"} THEN St0 ELSE IF c.sh \in {"am", "abm", "lam"} THEN SubSeq(St, 1, 2) ELSE St
         x == Obj(IF c.sh = "abm" THEN Third(c)[1] ELSE c.b[1], IF c.sh = "abm" THEN Third(c)[2] ELSE c.b[2], M("g_m"))
         y == Obj(Third(c)[1], Third(c)[2], M("g_n"))
     IN MakeWorld("clash" \o ToString(i), "clash", Argv(c.sh),
          <<ObjFile("/S/a.o", Obj(c.a[1], c.a[2], st)), ObjFile("/S/b.o", Obj(c.b[1], c.b[2], <<>>)),
            ArFile("/S/libx.a", <<Member("x.o", x)>>), ArFile("/S/liby.a", <<Member("y.o", y)>>),
            ArFile("/S/libxy.a", <<Member("same.o", x), Member("same.o", y)>>),
            SoFile("/S/libz.so", Shared("libz.so.1", <<Exports("g_x", 2, 4), Exports("g_y", 1, 4)>>, <<"g_q">>))>>)]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
