-------------------------------- MODULE Build --------------------------------
(* Constructors for the worlds that the MC modules enumerate. *)
EXTENDS Words, TLC, IOUtils, Json

LOCAL SX == INSTANCE SequencesExt
AsSeq(S) == SX!SetToSeq(S)
(* hands the worlds over to the harness *)
Export == IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, TLCGet(1)) ELSE TRUE

Val(n) == <<n % 65536, n \div 65536, 0, 0>>
Minus(n) == IF n = 0 THEN <<0, 0, 0, 0>>
            ELSE <<(65536 - (n % 65536)) % 65536, 65535 - ((n - 1) \div 65536), 65535, 65535>>
Num(n) == IF n < 0 THEN Minus(-n) ELSE Val(n)

Section(n, t, f, a, s, h) == [n |-> n, t |-> t, f |-> f, a |-> a, s |-> s, e |-> 0, h |-> h]
Symbol(n, b, t, x, v, z) == [n |-> n, b |-> b, t |-> t, x |-> x, v |-> Num(v), z |-> z, o |-> 0]
WithVis(s, v) == [s EXCEPT !.o = v]     \* with another visibility
Reloc(s, o, t, y, d) == [s |-> s, o |-> o, t |-> t, y |-> y, d |-> Num(d)]

Data(s) == Section(".data", 1, 3, 8, s, Zeros(s))
Bss(s, a) == Section(".bss", 8, 3, a, s, "")
Text(s) == Section(".text", 1, 6, 16, s, Zeros(s))

Object(secs, syms, rels) ==
  [cls |-> 2, data |-> 1, et |-> 1, mach |-> 62, ok |-> TRUE,
   secs |-> <<Section("", 0, 0, 0, 0, "")>> \o secs,
   syms |-> <<Symbol("", 0, 0, 0, 0, 0)>> \o syms, rels |-> rels]
Exports(n, t, z) == [n |-> n, b |-> 1, t |-> t, z |-> z, at |-> "", al |-> 16, o |-> 0]
Shared(soname, defs, undefs) ==
  [cls |-> 2, data |-> 1, et |-> 3, mach |-> 62, ok |-> TRUE, soname |-> soname, defs |-> defs, undefs |-> undefs]

ObjFile(b, o) == [k |-> "obj", b |-> b, o |-> o]
SoFile(b, s) == [k |-> "so", b |-> b, s |-> s]
ArFile(b, ms) == [k |-> "ar", b |-> b, a |-> [ok |-> TRUE, mem |-> ms]]
TextFile(b, x) == [k |-> "text", b |-> b, x |-> x]
Member(n, o) == [n |-> n, o |-> o]

MakeWorld(id, fam, argv, files) ==
  [id |-> id, fam |-> fam, argv |-> argv, cwd |-> "/S", dirs |-> <<"", "/S">>, rodirs |-> <<>>, files |-> files,
   links |-> <<>>, fault |-> "", wild |-> FALSE]

(* an object with _start, whatever else it has *)
StartSym == Symbol("_start", 1, 2, 1, 0, 1)
(* about n of the elements, which ones depends on the seed; all of them in   *)
(* a thorough run                                                            *)
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Seed == IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) % 10007 ELSE 1
(* numbers below 10^9 without much of a pattern *)
Rnd(i, k) == LET x == ((i * 9973) + (Seed * 1009) + (k * 7907)) % 44017
             IN ((x * x) % 999983) * 997 + (x % 991)
Some(s, n) ==
  LET k == Len(s) \div n
  IN IF k <= 1 THEN s
     ELSE [i \in 1..(Len(s) \div k) |-> s[((i - 1) * k) + (((Seed % 1000) * 7919 + i * 31) % k) + 1]]
Pick(s, quick, thorough) == Some(s, IF Thorough THEN thorough ELSE quick)

Flatten2(s) == LET RECURSIVE F(_) F(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o F(Tail(q)) IN F(s)

(* one of the words that the set's elements are *)
RECURSIVE Joined(_, _)
Joined(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Joined(Tail(s), sep)
=============================================================================
