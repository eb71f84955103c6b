-------------------------------- MODULE MC_Hash --------------------------------
(* The hash tables: the lookups of ElfHash find what the construction of    *)
(* the documents puts into tables, and nothing else; and the linker's       *)
(* tables for all sets of names, many of them with equal hash values.        *)
EXTENDS Rules, Build, ElfHash

N(n, c) == [n |-> n, c |-> c]
(* the first three collide in the GNU hash, "aaa", "acA", "ad1" in SysV's *)
Names == << N("aab", <<97, 97, 98>>), N("abA", <<97, 98, 65>>), N("bAA", <<98, 65, 65>>), N("aaa", <<97, 97, 97>>),
            N("acA", <<97, 99, 65>>), N("ad1", <<97, 100, 49>>), N("q", <<113>>),
            N("a_long_name_of_a_function_in_a_library", <<97, 95>>), N("zzzzzzzzzzzzzzzzz", <<122>>), N("printf", <<112>>) >>
Few == 1..7      \* those whose bytes are given in full

RECURSIVE SortBy(_, _)
SortBy(S, nb) == IF S = {} THEN <<>>
                 ELSE LET x == CHOOSE x \in S : \A y \in S : Mod32(GnuHash(x), nb) <= Mod32(GnuHash(y), nb)
                      IN <<x>> \o SortBy(S \ {x}, nb)
LookupsRight ==
  \A S \in SUBSET Few : \A nb \in {1, 2, 3, 5} :
    LET present == {Names[i].c : i \in S}
        names == << <<>> >> \o SortBy(present, nb)
        sysv == SysvMake(names, nb)
        hit(i, n) == IF Names[i].c \in present THEN n \in 1..(Len(names) - 1) /\ names[n + 1] = Names[i].c ELSE n = 0
    IN /\ SysvShape(sysv, Len(names))
       /\ \A i \in Few : hit(i, SysvLookup(sysv, names, Names[i].c))
       /\ \A b \in {<<1, 0>>, <<2, 5>>, <<1, 26>>, <<4, 6>>} :
            LET gnu == GnuMake(names, nb, b[1], b[2])
            IN /\ GnuSorted(names, nb)
               /\ GnuShape(gnu, Len(names))
               /\ \A i \in Few : hit(i, GnuLookup(gnu, names, Names[i].c))
ASSUME LookupsRight
(* a table that hides a name is noticed *)
ASSUME LET names == << <<>>, Names[1].c, Names[2].c, Names[4].c >>
           t == SysvMake(names, 1)
       IN \A k \in 2..4 : t.c[k] # 0 => \E i \in {2, 3, 4} : SysvLookup([t EXCEPT !.c[k] = 0], names, names[i]) # i - 1
(* the values for "printf": 0x077905a6 and 0x156b2bb8 *)
ASSUME /\ SysvHash(<<112, 114, 105, 110, 116, 102>>) = 125371814
       /\ GnuHash(<<112, 114, 105, 110, 116, 102>>) = <<5483, 11192>>

Params == Pick(AsSeq((SUBSET (1..Len(Names))) \X {"sysv", "gnu", "both"}), 750, 4000)
Main(S) ==
  LET q == AsSeq(S)
  IN Object(<<Data(8 * (Len(q) + 1)), Text(16)>>,
            <<Symbol("_start", 1, 2, 2, 0, 1)>> \o [i \in DOMAIN q |-> Symbol(Names[q[i]].n, 1, 0, 0, 0, 0)],
            [i \in DOMAIN q |-> Reloc(1, 8 * (i - 1), IF q[i] % 3 = 0 THEN 4 ELSE 1, i + 1, 0)])
Lib(T) == Shared("libx.so.1", [i \in DOMAIN T |-> Exports(T[i].n, IF i % 4 = 0 THEN 1 ELSE 2, 8)], <<>>)
AllWorlds ==
  [i \in DOMAIN Params |->
     MakeWorld("hash" \o ToString(i), "hash", <<"a.o", "--hash-style=" \o Params[i][2], "libx.so", "liby.so">>,
       <<ObjFile("/S/a.o", Main(Params[i][1])),
         SoFile("/S/libx.so", Lib(SubSeq(Names, 1, 5))), SoFile("/S/liby.so", Lib(SubSeq(Names, 4, Len(Names))))>>)]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
