------------------------------- MODULE MC_Reloc -------------------------------
(* Relocations: every type against every kind of target with several        *)
(* addends, those through the GOT with every instruction, and pairs of      *)
(* references to one symbol.                                                 *)
EXTENDS Rules, Build

(* the symbols of a.o *)
Kinds == << [k |-> "null", n |-> ""], [k |-> "local", n |-> "l_d"], [k |-> "section", n |-> ""],
            [k |-> "globf", n |-> "g_f"], [k |-> "there", n |-> "t_d"], [k |-> "therebss", n |-> "t_b"],
            [k |-> "weak0", n |-> "w_0"], [k |-> "abs", n |-> "s_abs"], [k |-> "bigabs", n |-> "b_abs"],
            [k |-> "impf", n |-> "i_f"], [k |-> "impo", n |-> "i_o"], [k |-> "impn", n |-> "i_n"],
            [k |-> "impt", n |-> "i_t"], [k |-> "tls", n |-> "g_t"], [k |-> "tlsb", n |-> "t_t"], [k |-> "ltls", n |-> "l_t"],
            [k |-> "got", n |-> "_GLOBAL_OFFSET_TABLE_"], [k |-> "wimpf", n |-> "i_wf"], [k |-> "member", n |-> "m_d"],
            [k |-> "negabs", n |-> "n_abs"],
            (* protected in the library; visible nowhere but in the program; local in the library *)
            [k |-> "impp", n |-> "i_p"], [k |-> "imppf", n |-> "i_pf"], [k |-> "hidden", n |-> "t_d"],
            [k |-> "hidimp", n |-> "i_h"], [k |-> "locimp", n |-> "i_loc"] >>
NK == Len(Kinds)
(* symbol k of the table; locals first: 1 null is implicit *)
Order == <<"l_d", "", "l_t">>   \* local symbols 1..3
SymIndex(k) == CASE Kinds[k].k = "null" -> 0 [] Kinds[k].k = "local" -> 1 [] Kinds[k].k = "section" -> 2
                 [] Kinds[k].k = "ltls" -> 3 [] Kinds[k].k = "globf" -> 5 [] Kinds[k].k = "tls" -> 6
                 [] Kinds[k].k = "bigabs" -> 7 [] OTHER -> 8       \* 4 is _start; 8 and 9 are what the world needs
Is(k, set) == Kinds[k].k \in set
TlsKind(k) == Is(k, {"impt", "tls", "tlsb", "ltls"})

Types == {0, 1, 2, 3, 4, 9, 10, 11, 19, 20, 21, 22, 23, 24, 25, 26}
Others == {5, 6, 7, 8, 12, 13, 14, 15, 16, 17, 18, 32, 33, 36, 37, 99}
Addends == {0, -4, 5, 2147483647, -2147483647}
Width(t) == CASE t \in {1, 16, 17, 18, 24, 25} -> 8 [] t = 41 -> 6 [] t = 42 -> 7 [] OTHER -> 4

Insn41 == {"ff15", "ff25", "8b05", "8b0d", "3b05", "031d", "8505", "ff35", "0305", "8b3d"}
Insn42 == {"488b05", "4c8b0d", "488b3d", "483b05", "488505", "4c0315", "482b05", "4823f5", "498b05", "480b25"}

(* every opcode that can load through the GOT, with every register and prefix *)
Opcodes == <<"8b", "3b", "85", "03", "2b", "23", "0b", "33", "13", "1b">>
Prefixes == <<"", "40", "44", "48", "4c">>
ModRM(g) == <<"05", "0d", "15", "1d", "25", "2d", "35", "3d">>[g]

Ref(t, k, d, insn) == [t |-> t, k |-> k, d |-> d, i |-> insn, big |-> 0]
(* addends that need more than 32 bits *)
Wides == <<<<5, 0, 1, 0>>, <<3, 32768, 0, 0>>, <<65533, 32767, 65535, 65535>>, <<9, 0, 65280, 65535>>, <<65535, 65535, 65535, 32767>>,
           <<0, 0, 0, 32768>>, <<39612, 22136, 4660, 0>>>>
Wide(t, k, x) == [t |-> t, k |-> k, d |-> 0, i |-> "", big |-> x]
Plain == {Ref(t, k, d, "") : t \in Types, k \in 1..NK, d \in Addends}
Odd == {Ref(t, k, 0, "") : t \in Others, k \in {1, 2, 4, 10, 14}}
Loads1 == {Ref(41, k, -4, i) : k \in 1..NK, i \in Insn41} \cup {Ref(42, k, -4, i) : k \in 1..NK, i \in Insn42}
LoadAdd == {Ref(41, k, d, "8b05") : k \in 1..NK, d \in {0, 5}} \cup {Ref(42, k, d, "488b05") : k \in 1..NK, d \in {0, 5}}
TlsRight(r) == (r.t \in {19, 20, 21, 22, 23, 17, 18, 16}) = TlsKind(r.k)
Sensible == {r \in Plain : (TlsRight(r) \/ r.d = 0)}
Simple == {r \in Plain \cup Loads1 : r.t \in Supported /\ TlsRight(r)
             /\ r.d = (IF r.t \in {2, 4, 41, 42, 19, 22} THEN -4 ELSE IF r.t = 3 THEN 0 ELSE 5)}
WideSeq == AsSeq({Wide(t, k, x) : t \in {1}, k \in 1..NK, x \in DOMAIN Wides}
                 \cup {Wide(t, k, x) : t \in {2, 10, 11, 24, 25}, k \in {1, 2, 4, 5, 7, 9, 11}, x \in DOMAIN Wides})
Singles == [i \in 1..Cardinality(Sensible) |-> <<AsSeq(Sensible)[i]>>]
Insns == [i \in 1..Cardinality(Loads1) |-> <<AsSeq(Loads1)[i]>>]
Reachable == <<2, 3, 5, 6, 7, 8, 10, 11, 18, 19, 21, 22, 23, 24>>
Forms ==
  [x \in 1..(Len(Opcodes) * Len(Reachable)) |->
     LET op == Opcodes[((x - 1) % Len(Opcodes)) + 1]
         sh == (x - 1) \div Len(Opcodes)
     IN [q \in 1..40 |-> LET p == Prefixes[((q - 1) % 5) + 1]
                             g == ((q - 1) \div 5) + 1
                         IN Ref(IF p = "" THEN 41 ELSE 42, Reachable[((q + sh) % Len(Reachable)) + 1], -4, p \o op \o ModRM(g))]]
SimpleSeq == AsSeq(Simple)
NS == Len(SimpleSeq)
(* two or three references to the same symbol *)
Of(k) == SelectSeq(SimpleSeq, LAMBDA r : r.k = k)
Ofs == [k \in 1..NK |-> Of(k)]
Pairs == [i \in 1..(IF Thorough THEN 6000 ELSE 500) |->
            LET r == Rnd(i, 1)
                s == Ofs[((r \div 3) % NK) + 1]
                o == Ofs[((r \div 71) % NK) + 1]
                N == Len(s)
            IN <<s[((r \div 11) % N) + 1], s[((r \div 401) % N) + 1], o[((r \div 4001) % Len(o)) + 1], s[((r \div 17) % N) + 1]>>]
Movs == [x \in 1..Len(Reachable) |-> Forms[(x - 1) * Len(Opcodes) + 1]]
Params == Movs \o Pick(Forms, 30, 110) \o Pick(Singles, 450, 3000) \o Pick(Insns, 200, 400)
          \o LET s == Pick(WideSeq, 100, 500) IN [i \in DOMAIN s |-> <<s[i]>>]
          \o [i \in 1..Cardinality(Odd) |-> <<AsSeq(Odd)[i]>>]
          \o [i \in 1..Cardinality(LoadAdd) |-> <<AsSeq(LoadAdd)[i]>>] \o Pairs

-----------------------------------------------------------------------------
(* the kinds that need a symbol of their own, in the order of use *)
Extra(ps) == LET ks == [i \in DOMAIN ps |-> ps[i].k]
             IN SelectSeq([i \in DOMAIN ks |-> IF SymIndex(ks[i]) = 8 /\ ~\E j \in 1..(i - 1) : ks[j] = ks[i] THEN ks[i] ELSE 0],
                          LAMBDA k : k # 0)
ExtraSym(k) ==
  LET n == Kinds[k].n
  IN CASE Is(k, {"weak0", "wimpf", "locimp"}) -> Symbol(n, 2, 0, 0, 0, 0)
       [] Is(k, {"hidimp"}) -> WithVis(Symbol(n, 2, 0, 0, 0, 0), 2)
       [] Is(k, {"hidden"}) -> WithVis(Symbol(n, 1, 0, 0, 0, 0), 1)
       [] Is(k, {"impt", "tlsb"}) -> Symbol(n, 1, 6, 0, 0, 0)
       [] Is(k, {"abs"}) -> Symbol(n, 1, 0, 65521, 4660, 0)
       [] Is(k, {"negabs"}) -> Symbol(n, 1, 0, 65521, -20, 0)
       [] OTHER -> Symbol(n, 1, 0, 0, 0, 0)
BigAbs == [Symbol("b_abs", 1, 0, 65521, 0, 0) EXCEPT !.v = <<61166, 52428, 43690, 4660>>]
Index(k, ex) == IF SymIndex(k) # 8 THEN SymIndex(k) ELSE 7 + (CHOOSE i \in DOMAIN ex : ex[i] = k)

RECURSIVE Offsets(_, _)
Offsets(ps, at) == IF ps = <<>> THEN <<>> ELSE <<at>> \o Offsets(Tail(ps), at + Width(Head(ps).t) + 5)
RECURSIVE Bytes(_)
Bytes(ps) == IF ps = <<>> THEN ""
             ELSE LET p == Head(ps)
                  IN (IF p.i = "" THEN Zeros(Width(p.t)) ELSE p.i \o Zeros(4)) \o "9090909090" \o Bytes(Tail(ps))
Shift(p) == IF p.i = "" THEN (IF p.t = 41 THEN 2 ELSE IF p.t = 42 THEN 3 ELSE 0) ELSE Len(p.i) \div 2
SizeOf(ps) == LET RECURSIVE S(_) S(q) == IF q = <<>> THEN 3 ELSE Width(Head(q).t) + 5 + S(Tail(q)) IN S(ps)

ObjA(ps) ==
  LET ex == Extra(ps)
      off == Offsets(ps, 3)
  IN Object(<<Section(".text", 1, 6, 16, SizeOf(ps), "cccccc" \o Bytes(ps)), Section(".data", 1, 3, 8, 24, Zeros(24)),
              Section(".tdata", 1, 1027, 8, 16, "0102030405060708090a0b0c0d0e0f10"), Section(".tbss", 8, 1027, 16, 24, "")>>,
            <<Symbol("l_d", 0, 1, 2, 4, 8), Symbol("", 0, 3, 2, 0, 0), Symbol("l_t", 0, 6, 4, 16, 8),
              Symbol("_start", 1, 2, 1, 0, 3), Symbol("g_f", 1, 2, 1, 2, 1), Symbol("g_t", 1, 6, 3, 8, 4)>>
            \o <<BigAbs>> \o [i \in DOMAIN ex |-> ExtraSym(ex[i])],
            [i \in DOMAIN ps |-> LET r == Reloc(1, off[i] + Shift(ps[i]), ps[i].t, Index(ps[i].k, ex), ps[i].d)
                                IN IF ps[i].big = 0 THEN r ELSE [r EXCEPT !.d = Wides[ps[i].big]]])
Obj2 == Object(<<Section(".data", 1, 3, 16, 20, Zeros(20)), Section(".bss", 8, 3, 32, 40, ""), Section(".tdata", 1, 1027, 4, 4, "11223344"),
                 Section(".text", 1, 6, 4, 5, "9090909090")>>,
               <<Symbol("t_d", 1, 1, 1, 12, 8), Symbol("t_b", 1, 1, 2, 8, 4), Symbol("t_t", 1, 6, 3, 0, 4)>>, <<>>)
Lib == Shared("libi.so.1", <<Exports("i_f", 2, 8), [Exports("i_o", 1, 20) EXCEPT !.at = "2000"], Exports("i_n", 0, 0), Exports("i_t", 6, 8),
                             Exports("i_wf", 2, 16), Exports("other", 2, 4),
                             [Exports("i_p", 1, 20) EXCEPT !.at = "1000", !.o = 3], [Exports("i_pf", 2, 4) EXCEPT !.o = 3],
                             Exports("i_h", 2, 4), [Exports("i_loc", 2, 4) EXCEPT !.b = 0]>>, <<>>)
Arch == <<Member("m.o", Object(<<Section(".data", 1, 3, 8, 16, Zeros(16))>>, <<Symbol("m_d", 1, 1, 1, 8, 8)>>, <<>>))>>
AllWorlds ==
  [i \in DOMAIN Params |->
     MakeWorld("reloc" \o ToString(i), "reloc",
       IF i % 2 = 0 THEN <<"a.o", "b.o", "libi.so", "libm.a">> ELSE <<"libm.a", "libi.so", "b.o", "a.o">>,
       <<ObjFile("/S/a.o", ObjA(Params[i])), ObjFile("/S/b.o", Obj2), SoFile("/S/libi.so", Lib), ArFile("/S/libm.a", Arch)>>)]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
