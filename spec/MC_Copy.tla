-------------------------------- MODULE MC_Copy --------------------------------
(* Data objects of shared libraries that the program uses: sizes, places in *)
(* the library, second names, libraries that both have a name, names that   *)
(* the program has itself.                                                   *)
EXTENDS Rules, Build

Sizes == {0, 1, 4, 8, 12, 100}
Places == {"0", "4", "8", "14", "20", "40", "100"}
(* libx: o1, a second name of it, o2;  liby: o1 as well, and o4 *)
Uses == SUBSET {"o1", "alias", "o2", "o4"} \ {{}}
Refs == << 1, 2, 42, 10, 11, 41, 3 >>
Own == {"no", "alias", "o1", "walias", "local"}
Order == {"xy", "yx", "x"}
Obj2 == {"same", "other", "none"}
Combos == AsSeq(Uses \X Own \X Order \X Obj2)
NB == Len(Combos)
Count == IF Thorough THEN 10000 ELSE 1100
S5 == AsSeq(Sizes)
P7 == AsSeq(Places)
D(s, r, k) == s[((r \div k) % Len(s)) + 1]
Case(i) == LET r == Rnd(i, 5)
               b == Combos[(r % NB) + 1]
           IN [u |-> b[1], own |-> b[2], ord |-> b[3], two |-> b[4],
               z1 |-> D(S5, r, 5), za |-> IF i % 3 = 0 THEN D(S5, r, 31) ELSE D(S5, r, 5), z2 |-> D(S5, r, 37), z4 |-> D(S5, r, 41),
               p2 |-> D(P7, r, 43), pa |-> IF i % 5 = 0 THEN "4" ELSE "0", r |-> r,
               wa |-> IF r % 2 = 0 THEN 1 ELSE 2, first |-> (i % 7) < 4]
Params == [i \in 1..Count |-> Case(i)]

Exp(n, b, z, at) == [n |-> n, b |-> b, t |-> 1, z |-> z, at |-> at, al |-> 16, o |-> 0]
LibX(c) ==
  LET o1 == Exp("g_o1", 1, c.z1, "0")
      a == Exp("g_alias", c.wa, c.za, c.pa)
      a2 == Exp("g_hidden_alias", c.wa, c.z1, "0")
      o2 == Exp("g_o2", 1, c.z2, IF c.p2 = "0" THEN "10" ELSE c.p2)
      (* one that the program uses, or a name nobody uses, may be protected or local *)
      p2 == IF c.r % 11 = 3 THEN [o2 EXCEPT !.o = 3] ELSE IF c.r % 11 = 4 THEN [o2 EXCEPT !.b = 0] ELSE o2
      pa == IF c.r % 13 = 5 THEN [a2 EXCEPT !.o = 3] ELSE IF c.r % 13 = 6 THEN [a2 EXCEPT !.b = 0] ELSE a2
  IN Shared("libx.so.1", (IF c.first THEN <<o1, a>> ELSE <<a, o1>>) \o (IF c.r % 3 = 0 THEN <<pa, p2>> ELSE <<p2, Exports("g_f", 2, 4)>>), <<>>)
(* what is another name of an object in libx may mean something else in liby: *)
(* another object, a function, or another name of an object the program uses *)
Second(c) == CASE (c.r \div 3) % 9 = 1 -> <<Exp("g_alias", c.wa, c.z4, "8")>>
               [] (c.r \div 3) % 9 = 2 -> <<Exp("g_alias", 2, c.z4, "80")>>
               [] (c.r \div 3) % 9 = 3 -> <<Exports("g_alias", 2, 4)>>
               [] (c.r \div 3) % 9 = 4 -> <<Exp("g_hidden_alias", 1, c.z4, "8")>>
               [] (c.r \div 3) % 9 = 5 -> <<Exp("g_hidden_alias", c.wa, c.z4, "80")>>
               [] (c.r \div 3) % 9 = 6 -> <<[Exp("g_alias", 1, c.z4, "8") EXCEPT !.o = 3]>>
               [] (c.r \div 3) % 9 = 7 -> <<[Exp("g_hidden_alias", 1, c.z4, "8") EXCEPT !.b = 0]>>
               [] OTHER -> <<>>
LibY(c) == Shared("", <<Exp("g_o4", 1, c.z4, "8"), Exp("g_o1", 1, c.z2, "40"), Exp("g_o44", 2, c.z4, "8")>> \o Second(c), <<"g_o2">>)

Names(c) == AsSeq(c.u)
Wide(t) == CASE t = 1 -> 8 [] t = 41 -> 4 [] t = 42 -> 4 [] OTHER -> 4
ObjWith(names, c, k) ==
  LET own == IF k # 1 THEN <<>>
             ELSE CASE c.own = "alias" -> <<Symbol("g_alias", 1, 1, 1, 8, 8)>> [] c.own = "walias" -> <<Symbol("g_alias", 2, 1, 1, 8, 8)>>
                    [] c.own = "o1" -> <<Symbol("g_o1", 1, 1, 1, 0, 8)>> [] OTHER -> <<>>
      loc == <<Symbol("g_o2", 0, 1, 1, 0, 4)>>
      refs == SelectSeq(names, LAMBDA n : ~\E i \in DOMAIN own : own[i].n = "g_" \o n)
      y0 == Len(loc) + Len(own) + (IF k = 1 THEN 1 ELSE 0)
      type(i) == D(Refs, c.r, i * 11 + k)
  IN Object(<<Data(16), Section(".text", 1, 6, 16, 16 * (Len(refs) + 1), LET RECURSIVE B(_) B(n) == IF n = 0 THEN Zeros(16) ELSE "488b05" \o Zeros(13) \o B(n - 1)
                                               IN B(Len(refs)))>>,
            loc \o (IF k = 1 THEN <<Symbol("_start", 1, 2, 2, 0, 1)>> ELSE <<>>) \o own
              \o [i \in DOMAIN refs |-> Symbol("g_" \o refs[i], IF (c.r \div (i + 2)) % 5 = 0 THEN 2 ELSE 1, 0, 0, 0, 0)],
            [i \in DOMAIN refs |-> Reloc(2, 16 * (i - 1) + 3, type(i), y0 + i, IF type(i) \in {41, 42} THEN -4 ELSE 0)])
AllWorlds ==
  [i \in DOMAIN Params |->
     LET c == Params[i]
     IN MakeWorld("copy" \o ToString(i), "copy",
          <<"a.o">> \o (CASE c.ord = "xy" -> <<"libx.so", "liby.so">> [] c.ord = "yx" -> <<"liby.so", "libx.so">>
                          [] OTHER -> <<"libx.so", "--as-needed", "liby.so">>)
          \o (IF c.two = "none" THEN <<>> ELSE <<"b.o">>),
          <<ObjFile("/S/a.o", ObjWith(Names(c), c, 1)),
            ObjFile("/S/b.o", ObjWith(IF c.two = "other" THEN <<"o1", "o4">> ELSE Names(c), c, 2)),
            SoFile("/S/libx.so", LibX(c)), SoFile("/S/liby.so", LibY(c))>>)]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
