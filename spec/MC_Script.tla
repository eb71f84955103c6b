------------------------------- MODULE MC_Script -------------------------------
(* Linker scripts.  The texts are made from lexemes and separators, so that *)
(* what a script means can be told from the lexemes, by rules that don't    *)
(* look at characters: OracleOK compares the character machine with them.   *)
EXTENDS Rules, Build

-----------------------------------------------------------------------------
(* the grammar, on lists of lexemes: [r, out] *)
Bad == [r |-> "bad", out |-> <<>>]
RECURSIVE Commands(_, _)
RECURSIVE ItemsOf(_, _, _)
Words1 == {"(", ")", "GROUP", "AS_NEEDED", "OUTPUT_FORMAT"}
IsWord(x) == x \notin {"(", ")"}
Commands(l, out) ==
  IF l = <<>> THEN [r |-> "ok", out |-> out]
  ELSE IF l[1] = "GROUP" /\ Len(l) >= 2 /\ l[2] = "(" THEN ItemsOf(From(l, 3), FALSE, out)
  ELSE IF l[1] = "OUTPUT_FORMAT" /\ Len(l) >= 4 /\ l[2] = "(" /\ IsWord(l[3]) /\ l[4] = ")" THEN Commands(From(l, 5), out)
  ELSE Bad
ItemsOf(l, asn, out) ==
  IF l = <<>> \/ l[1] = "(" THEN Bad
  ELSE IF l[1] = ")" THEN IF asn THEN ItemsOf(Tail(l), FALSE, out) ELSE Commands(Tail(l), out)
  ELSE IF l[1] = "AS_NEEDED" /\ ~asn
       THEN IF Len(l) >= 2 /\ l[2] = "(" THEN ItemsOf(From(l, 3), TRUE, out) ELSE Bad
  ELSE ItemsOf(Tail(l), asn, Append(out, [n |-> l[1], asn |-> asn]))
(* AS_NEEDED inside AS_NEEDED is no name that one could mean *)
Meaning(l) == Commands(l, <<>>)

-----------------------------------------------------------------------------
(* separators: what may stand between lexemes *)
Seps == << <<" ", " ">>, <<"\n", "\n">>, <<"\t \n ", "">>, <<" /* x */ ", "">>, <<"\n/**/\n", "/***/">>,
           <<" /* a * b / c ** ( ) GROUP */\t", " ">>, <<"\r\n", "/* // */">>, <<" /*/ */ /* \n */ ", "\n\n">> >>
Glue(a, b) == a \in {"(", ")"} \/ b \in {"(", ")"}      \* may stand directly next to each other
IsName(x) == x \notin {"(", ")", "GROUP", "AS_NEEDED", "OUTPUT_FORMAT"}
RECURSIVE Render(_, _, _)
Render(l, i, sep) ==   \* separators alternate between the two forms where both are allowed
  IF i > Len(l) THEN ""
  ELSE l[i] \o (IF i = Len(l) THEN "" ELSE IF Glue(l[i], l[i + 1]) /\ i % 2 = 0 /\ ~(StartsWith(sep[2], "/") /\ IsName(l[i]))
                      THEN sep[2] ELSE sep[1])
            \o Render(l, i + 1, sep)
Text1(l, k, lead, trail) == (IF lead THEN Seps[k][1] ELSE "") \o Render(l, 1, Seps[k]) \o (IF trail THEN Seps[k][1] ELSE "")

-----------------------------------------------------------------------------
Names == {"libq.so", "libr.so", "b.o", "-ls", "-lq", "AS_x.o", "./b.o", "d/inner.ld", "nosuch.so", "GROUP", "/S/libr.so"}
Items == {<<n>> : n \in Names} \cup {<<"AS_NEEDED", "(", ")">>}
         \cup {<<"AS_NEEDED", "(", n, ")">> : n \in {"libq.so", "libr.so", "-ls", "b.o", "d/inner.ld"}}
         \cup {<<"AS_NEEDED", "(", m, n, ")">> : m, n \in {"libq.so", "libr.so"}}
Fmt == <<"OUTPUT_FORMAT", "(", "elf64-x86-64", ")">>
Grp(is) == <<"GROUP", "(">> \o Flatten2(is) \o <<")">>
ItemSeq == AsSeq(Items)
NI == Len(ItemSeq)
Draw(r, k) == ItemSeq[((r \div k) % NI) + 1]
Structures ==
  AsSeq({Grp(<<i>>) : i \in Items} \cup {Fmt \o Grp(<<i>>) : i \in Items} \cup {Grp(<<i>>) \o Fmt : i \in Items}
        \cup {<<>>, Fmt, Grp(<<>>), Fmt \o Fmt, Grp(<<>>) \o Grp(<<>>)})
  \o [i \in 1..(IF Thorough THEN 8000 ELSE 500) |->
        LET r == Rnd(i, 1)
            a == Draw(r, 1)  b == Draw(r, 19)  c == Draw(r, 371)  d == Draw(r, 6007)
        IN CASE i % 6 = 0 -> Grp(<<a, b, c>>)
             [] i % 6 = 1 -> Fmt \o Grp(<<a, b>>) \o Grp(<<c>>)
             [] i % 6 = 2 -> Grp(<<a, b, c, d>>) \o Fmt
             [] i % 6 = 3 -> Grp(<<a>>) \o Grp(<<b>>) \o Fmt \o Grp(<<c, d>>)
             [] OTHER -> Grp(<<a, b>>)]
(* all short sequences of lexemes, most of which mean nothing *)
Lexemes == {"GROUP", "(", ")", "AS_NEEDED", "OUTPUT_FORMAT", "libq.so"}
Sequences == UNION {[1..n -> Lexemes] : n \in 1..5}
Shorts == Pick(AsSeq({s \in Sequences : Len(s) >= 2 => s[1] # ")"}), 450, 7000)
(* a script with something else in it *)
Strange == {"*", "*/", "/", "//", "/*", "/* x", "/* x *", "+", ";", ",", "{", "}", "=", "\"", "'", "#", "SEARCH_DIR", "INPUT(b.o)",
            "ENTRY(_start)", "b.o", "group(b.o)", ":", "@", "GROUP", "OUTPUT_FORMAT"}
Stranges == [i \in 1..(Cardinality(Strange) * 4) |->
               LET x == AsSeq(Strange)[((i - 1) \div 4) + 1]
               IN CASE i % 4 = 0 -> x \o " GROUP ( b.o )" [] i % 4 = 1 -> "GROUP ( b.o " \o x \o " libq.so )"
                    [] i % 4 = 2 -> "GROUP ( b.o ) \n" \o x [] OTHER -> "GROUP ( AS_NEEDED ( libq.so " \o x \o " libr.so ) )"]

Script1(l, i) == [l |-> l, x |-> Text1(l, ((i + Seed) % Len(Seps)) + 1, (i \div 2) % 2 = 0, (i \div 3) % 2 = 0)]
Params == [i \in DOMAIN Structures |-> Script1(Structures[i], i)] \o [i \in DOMAIN Shorts |-> Script1(Shorts[i], i)]
          \o [i \in DOMAIN Stranges |-> [l |-> <<"?">>, x |-> Stranges[i]]]

Main == Object(<<Data(16), Text(16)>>,
               <<Symbol("_start", 1, 2, 2, 0, 1), Symbol("g_q", 2, 0, 0, 0, 0), Symbol("g_s", 2, 0, 0, 0, 0),
                 Symbol("g_s", 1, 0, 0, 0, 0)>>,
               <<Reloc(1, 0, 1, 2, 0), Reloc(1, 8, 1, 3, 0)>>)
MainX == Object(<<Data(16), Text(16)>>,
               <<Symbol("_start", 1, 2, 2, 0, 1), Symbol("g_q", 2, 0, 0, 0, 0), Symbol("g_s", 2, 0, 0, 0, 0)>>,
               <<Reloc(1, 0, 1, 2, 0), Reloc(1, 8, 1, 3, 0)>>)
Marked(n) == Object(<<Data(8)>>, <<Symbol(n, 0, 1, 1, 0, 8)>>, <<>>)
WithS(n) == Object(<<Data(8)>>, <<Symbol(n, 0, 1, 1, 0, 8), Symbol("g_s", 1, 1, 1, 0, 8)>>, <<>>)
Strong1 == Object(<<Data(8)>>, <<Symbol("g_s", 1, 0, 0, 0, 0)>>, <<Reloc(1, 0, 1, 1, 0)>>)

Argv(i) == CASE i % 5 = 0 -> <<"-L.", "a.o", "script">>
             [] i % 5 = 1 -> <<"script", "a.o", "-L", ".">>
             [] i % 5 = 2 -> <<"a.o", "--as-needed", "script", "--no-as-needed", "libt.so", "-L.">>
             [] i % 5 = 3 -> <<"-L.", "a.o", "s.o", "script", "libt.so">>
             [] OTHER -> <<"a.o", "-Ld", "-L.", "libt.so", "-lscript", "s.o">>
AllWorlds ==
  [i \in DOMAIN Params |->
     [MakeWorld("script" \o ToString(i), "script", Argv(i),
        <<ObjFile("/S/a.o", MainX), ObjFile("/S/b.o", Marked("in_b")), ObjFile("/S/AS_x.o", Marked("in_as_x")),
          ObjFile("/S/s.o", Strong1), ObjFile("/S/GROUP", Marked("in_group")),
          SoFile("/S/libq.so", Shared("", <<Exports("g_q", 2, 8)>>, <<>>)),
          SoFile("/S/libr.so", Shared("libr.so.3", <<Exports("g_q", 2, 8)>>, <<>>)),
          SoFile("/S/libt.so", Shared("libt.so.1", <<Exports("g_q", 2, 8), Exports("g_t", 2, 8)>>, <<>>)),
          ArFile("/S/libs.a", <<Member("s.o", WithS("in_s"))>>),
          TextFile("/S/d/inner.ld", "GROUP(AS_NEEDED(libr.so) AS_x.o) /* end */"),
          TextFile(IF i % 5 = 4 THEN "/S/d/libscript.so" ELSE "/S/script", Params[i].x)>>)
      EXCEPT !.dirs = <<"", "/S", "/S/d">>] @@ [lex |-> Params[i].l]]

(* scripts that include themselves, directly or not *)
Loops == << [a |-> "GROUP ( script )", b |-> ""], [a |-> "GROUP(b.o ./script)", b |-> ""],
            [a |-> "GROUP ( two )", b |-> "GROUP ( AS_NEEDED ( /S/script ) )"],
            [a |-> "GROUP ( two two )", b |-> "GROUP ( libq.so )"],
            [a |-> "GROUP ( two script )", b |-> "/* empty */"],
            [a |-> "GROUP ( two ) GROUP ( two )", b |-> "GROUP ( libr.so ) OUTPUT_FORMAT(x)"],
            [a |-> "GROUP ( AS_NEEDED ( two ) libq.so )", b |-> "GROUP ( libr.so -ls )"],
            [a |-> "GROUP ( AS_NEEDED ( two two ) libq.so )", b |-> "GROUP ( two )"] >>
LoopWorlds ==
  [i \in DOMAIN Loops |->
     MakeWorld("loop" \o ToString(i), "script", <<"a.o", "script", "-L.">>,
       <<ObjFile("/S/a.o", MainX), ObjFile("/S/b.o", Marked("in_b")),
         SoFile("/S/libq.so", Shared("", <<Exports("g_q", 2, 8)>>, <<>>)),
         SoFile("/S/libr.so", Shared("libr.so.3", <<Exports("g_q", 2, 8)>>, <<>>)),
         ArFile("/S/libs.a", <<Member("s.o", WithS("in_s"))>>),
         TextFile("/S/script", Loops[i].a), TextFile("/S/two", Loops[i].b)>>) @@ [lex |-> <<"?">>]]

ASSUME TLCSet(1, AllWorlds \o LoopWorlds)
ASSUME Export

OracleOK == \A i \in DOMAIN Params :
              LET p == Params[i]
              IN p.l # <<"?">> => LET s == ReadScript(p.x)
                                      m == Meaning(p.l)
                                  IN s.r = "any" \/ s = m
ASSUME OracleOK
=============================================================================
