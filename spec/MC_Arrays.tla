------------------------------- MODULE MC_Arrays -------------------------------
(* The entry point and the symbols that the linker defines.                  *)
EXTENDS Rules, Build

Counts == {-1, 0, 1, 3}                       \* pointers in an array; -1: no such section
Asked == SUBSET {"__init_array_start", "__init_array_end", "__fini_array_start", "__fini_array_end", "_GLOBAL_OFFSET_TABLE_"}
Own == {"no", "start", "end", "weak", "lib"}
Starts == {<<"a", 0>>, <<"a", 9>>, <<"b", 4>>, <<"m", 3>>, <<"none", 0>>, <<"weak", 2>>, <<"data", 8>>}
Combos == AsSeq(Counts \X Counts \X Counts \X Counts \X Starts)
AskedSeq == AsSeq(Asked)
OwnSeq == AsSeq(Own)
Count == IF Thorough THEN 12000 ELSE 900
D(s, r) == s[(r % Len(s)) + 1]
Case(i) == LET c == Combos[(Rnd(i, 1) % Len(Combos)) + 1]
           IN [ia |-> c[1], fa |-> c[2], ib |-> c[3], fb |-> c[4], st |-> c[5], ask |-> D(AskedSeq, Rnd(i, 2)), own |-> D(OwnSeq, Rnd(i, 3)),
               who |-> Rnd(i, 4) % 3, weak |-> Rnd(i, 5) % 4 = 0, init |-> Rnd(i, 6) % 3 = 0, got |-> Rnd(i, 7) % 2 = 0]
Params == [i \in 1..Count |-> Case(i)]

Arr(n, t, k) == IF k < 0 THEN <<>> ELSE <<Section(n, t, 3, 8, 8 * k, Zeros(8 * k))>>
(* pointers to .text, one after the other *)
ArrRels(s, k) == IF k <= 0 THEN <<>> ELSE [j \in 1..k |-> Reloc(s, 8 * (j - 1), 1, 1, j)]
AskSyms(c) == LET q == AsSeq(c.ask)
                  defd == CASE c.own \in {"start", "weak"} -> {"__init_array_start"} [] c.own = "end" -> {"__fini_array_end"}
                            [] c.own = "got" -> {"_GLOBAL_OFFSET_TABLE_"} [] OTHER -> {}
              IN [i \in DOMAIN q |-> Symbol(q[i], IF c.weak THEN 2 ELSE 1, 0, 0, 0, 0)]
OwnSyms(c, k) == IF k # 2 THEN <<>>
                 ELSE CASE c.own = "start" -> <<Symbol("__init_array_start", 1, 0, 2, 8, 0)>>
                        [] c.own = "weak" -> <<Symbol("__init_array_start", 2, 1, 2, 4, 4)>>
                        [] c.own = "end" -> <<Symbol("__fini_array_end", 1, 0, 2, 16, 0)>>
                        [] c.own = "got" -> <<Symbol("_GLOBAL_OFFSET_TABLE_", 1, 0, 2, 0, 0)>>
                        [] OTHER -> <<>>
StartIn(c, t) == CASE c.st[1] = t -> <<Symbol("_start", 1, 2, 1, c.st[2], 1)>>
                   [] c.st[1] = "weak" /\ t \in {"a", "b"} -> <<Symbol("_start", 2, 2, 1, c.st[2] + (IF t = "a" THEN 0 ELSE 5), 1)>>
                   [] c.st[1] = "data" /\ t = "b" -> <<Symbol("_start", 1, 0, 2, c.st[2], 1)>>
                   [] OTHER -> <<>>
(* object k: "a", "b", "m" *)
Obj(c, k, ia, fa) ==
  LET t == <<"a", "b", "m">>[k]
      secs == <<Text(16), Data(48)>> \o Arr(".init_array", 14, ia) \o Arr(".fini_array", 15, fa)
              \o (IF c.init /\ k # 2 THEN <<Section(".init", 1, 6, 4, 5, "9090909090"), Section(".fini", 1, 6, 4, 3, "909090")>> ELSE <<>>)
      si == 3
      sf == IF ia < 0 THEN 3 ELSE 4
      ask == IF c.who = k - 1 THEN AskSyms(c) ELSE <<>>
      own == SelectSeq(OwnSyms(c, k), LAMBDA s : ~\E i \in DOMAIN ask : ask[i].n = s.n)
      local == <<Symbol("", 0, 3, 1, 0, 0)>>
      extra == (IF k = 3 THEN <<Symbol("g_m", 1, 1, 2, 0, 8)>> ELSE IF k = 1 THEN <<Symbol("g_m", 1, 0, 0, 0, 0)>> ELSE <<>>)
               \o StartIn(c, t)
      y0 == Len(local) + Len(extra) + Len(own)
  IN Object(secs, local \o extra \o own \o ask,
            ArrRels(si, ia) \o ArrRels(sf, fa)
            \o [i \in DOMAIN ask |-> Reloc(2, 8 * (i - 1), IF i % 2 = 0 /\ c.got THEN 2 ELSE 1, y0 + i, i - 1)])
Lib == Shared("libz.so", <<Exports("_start", 2, 4), Exports("z", 2, 1)>>, <<>>)
AllWorlds ==
  [i \in DOMAIN Params |->
     LET c == Params[i]
     IN MakeWorld("arrays" \o ToString(i), "arrays",
          <<"a.o", "libm.a", "b.o">> \o (IF c.own = "lib" THEN <<"libz.so">> ELSE <<>>),
          <<ObjFile("/S/a.o", Obj(c, 1, c.ia, c.fa)), ObjFile("/S/b.o", Obj(c, 2, c.ib, c.fb)),
            ArFile("/S/libm.a", <<Member("m.o", Obj(c, 3, c.fb, c.ia))>>), SoFile("/S/libz.so", Lib)>>)]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
