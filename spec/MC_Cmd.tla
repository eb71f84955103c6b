-------------------------------- MODULE MC_Cmd --------------------------------
(* Command lines: every pair of option groups around an object, some        *)
(* triples, and options that lack their argument at the end.  The groups    *)
(* are kept in the world, so that the effect of the options can be stated   *)
(* without reading the command line token by token.                         *)
EXTENDS Rules, Build

Group(k, v, toks1) == [k |-> k, v |-> v, t |-> toks1]
Unknown(t) == Group("unknown", t, <<t>>)     \* an input, which doesn't exist
Groups == {
  Group("out", "x", <<"-o", "x">>), Group("out", "/S/d/y", <<"-o", "/S/d/y">>),
  Group("out", "./d/../z", <<"-o", "./d/../z">>), Group("out", "-odd", <<"-o", "-odd">>),
  Group("none", "", <<"-m", "elf_x86_64">>), Group("bad", "", <<"-m", "elf_i386">>), Group("bad", "", <<"-m", "">>),
  Group("bad", "", <<"-m", "elf_x86_64_sol2">>), Group("bad", "", <<"-m", "elf_x86_6">>), Group("bad", "", <<"-m", "ELF_X86_64">>),
  Group("none", "", <<"-z", "now">>), Group("none", "", <<"-z", "-o">>),
  Group("hash", "sysv", <<"--hash-style=sysv">>), Group("hash", "gnu", <<"--hash-style=gnu">>),
  Group("hash", "both", <<"--hash-style=both">>), Group("hash", "gnu", <<"--hash-style", "gnu">>),
  Group("hash", "sysv", <<"--hash-style", "sysv">>),
  Group("bad", "", <<"--hash-style=SYSV">>), Group("bad", "", <<"--hash-style=gnu2">>), Group("bad", "", <<"--hash-style=">>), Group("bad", "", <<"--hash-style", "none">>),
  Group("dyn", "/a/loader.so", <<"-dynamic-linker", "/a/loader.so">>), Group("dyn", "-l", <<"-dynamic-linker", "-l">>),
  Group("none", "", <<"--build-id", "sha1">>), Group("none", "", <<"--build-id", "0x12">>),
  Group("none", "", <<"--build-id", "md5">>), Group("none", "", <<"--build-id", "uuid">>),
  Group("bad", "", <<"--build-id", "sha256">>), Group("bad", "", <<"--build-id", "a.o">>),
  Group("id", "", <<"--build-id">>),
  Group("none", "", <<"--eh-frame-hdr">>),
  Group("help", "", <<"-h">>), Group("help", "", <<"--help">>),
  Group("asn", "yes", <<"--as-needed">>), Group("asn", "no", <<"--no-as-needed">>),
  Group("none", "", <<"--start-group">>), Group("none", "", <<"--end-group">>),
  Group("dir", "d", <<"-L", "d">>), Group("dir", "d", <<"-Ld">>), Group("dir", "nodir", <<"-Lnodir">>),
  Group("lib", "q", <<"-l", "q">>), Group("lib", "q", <<"-lq">>), Group("lib", "nosuch", <<"-lnosuch">>),
  Group("in", "b.o", <<"b.o">>), Group("in", "libr.so", <<"libr.so">>), Group("in", "./a.o", <<"./a.o">>),
  Group("in", "nosuch.o", <<"nosuch.o">>), Group("in", "d", <<"d">>), Group("in", "libu.a", <<"libu.a">>) }
Odds == {
  Unknown("--no-such"), Unknown("--no-start-group"), Unknown("--as-neede"), Unknown("--as-neededd"), Unknown("--Help"),
  Unknown("-as-needed"), Unknown("--help="), Unknown("-"), Unknown("--"), Unknown("--dynamic-linker"), Unknown("-shared"),
  Unknown("-O2"), Unknown("-oo"), Unknown("-hh"), Unknown("--build-id=md5"), Unknown("--eh-frame"), Unknown("-m64"), Unknown("-znow") }
Lacking == {"-o", "-m", "-dynamic-linker", "-L", "-l", "-z", "--hash-style"}

InputA == Group("in", "a.o", <<"a.o">>)
(* an optional argument isn't taken for an input that follows *)
Fits(a, b) == ~(a.k = "id" /\ ~StartsWith(b.t[1], "-"))
Pairs == {<<a, InputA, b>> : a \in {g \in Groups : g.k # "id"}, b \in Groups}
         \cup {<<InputA, a, b>> : a, b \in Groups}
         \cup {<<a, b, InputA>> : a \in Groups, b \in {g \in Groups : g.k # "id"}}
Ends == {<<a, InputA, Group("lack", t, <<t>>)>> : a \in {g \in Groups : g.k # "id"}, t \in Lacking}
OddOnes == {<<a, InputA>> : a \in Odds} \cup {<<InputA, a>> : a \in Odds}
           \cup {<<g, a, InputA>> : a \in Odds, g \in {Group("asn", "yes", <<"--as-needed">>), Group("out", "x", <<"-o", "x">>)}}
Empty == {<<>>, <<Group("help", "", <<"-h">>)>>, <<Group("asn", "yes", <<"--as-needed">>)>>}
Short == {p \in Pairs : \A i \in 1..2 : Fits(p[i], p[i + 1])}
Good == {g \in Groups : g.k \notin {"bad", "help", "id", "unknown"} /\ g.v \notin {"nosuch.o", "nosuch", "d", "./a.o"}}
GoodSeq == AsSeq(Good)
(* sequences of four groups that are fine by themselves *)
NG == Cardinality(Good)
Longer == [i \in 1..(IF Thorough THEN 6000 ELSE 500) |->
             LET r == Rnd(i, 1)
             IN <<GoodSeq[((r \div 3) % NG) + 1], GoodSeq[((r \div 101) % NG) + 1], InputA,
                  GoodSeq[((r \div 1009) % NG) + 1], GoodSeq[((r \div 10007) % NG) + 1]>>]
Params == Pick(AsSeq(Short), 1300, 7000) \o AsSeq(Ends) \o AsSeq(OddOnes) \o AsSeq(Empty) \o Longer

Main == Object(<<Data(16), Text(16)>>,
               <<Symbol("_start", 1, 2, 2, 0, 1), Symbol("g_q", 2, 0, 0, 0, 0), Symbol("g_r", 2, 0, 0, 0, 0)>>,
               <<Reloc(1, 0, 1, 2, 0), Reloc(1, 8, 1, 3, 0)>>)
Other == Object(<<Data(8)>>, <<Symbol("g_b", 1, 1, 1, 0, 8)>>, <<>>)

AllWorlds ==
  [i \in DOMAIN Params |->
     [MakeWorld("cmd" \o ToString(i), "cmd", Flatten2([j \in DOMAIN Params[i] |-> Params[i][j].t]),
        <<ObjFile("/S/a.o", Main), ObjFile("/S/b.o", Other),
          SoFile("/S/d/libq.so", Shared("", <<Exports("g_q", 2, 8)>>, <<>>)),
          SoFile("/S/libr.so", Shared("libr.so.3", <<Exports("g_q", 2, 8)>>, <<>>)),
          ArFile("/S/libu.a", <<Member("u.o", Object(<<Data(8)>>, <<Symbol("g_u", 1, 1, 1, 0, 8)>>, <<>>))>>)>>)
      EXCEPT !.dirs = <<"", "/S", "/S/d">>] @@ [grp |-> Params[i], mkdirs |-> <<"/S/d">>]]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export

-----------------------------------------------------------------------------
(* the effect of the options, stated on the groups *)
G == World.grp
Last(k, default) == LET S == {i \in DOMAIN G : G[i].k = k}
                    IN IF S = {} THEN default ELSE G[CHOOSE i \in S : \A j \in S : j <= i].v
Has(k) == \E i \in DOMAIN G : G[i].k = k
Inputs == SelectSeq(G, LAMBDA g : g.k \in {"in", "lib", "unknown"})
AsNeededAt(i) == LET S == {j \in 1..(i - 1) : G[j].k = "asn"}
                 IN S # {} /\ G[CHOOSE j \in S : \A k \in S : k <= j].v = "yes"
OptionsWork ==
  pc \notin {"cmd"} =>
    /\ (Has("bad") \/ Has("lack")) => pc \in {"fail", "any"}
    /\ pc = "fail" => (Has("bad") \/ Has("lack") \/ Has("unknown") \/ \E i \in DOMAIN G : G[i].v \in {"nosuch.o", "nosuch", "d", "q", "./a.o"}
                       \/ err.k \in {"clash", "unresolved"})
    /\ (Has("unknown") /\ ~Has("help") /\ pc \in Final) => pc = "fail"
    /\ (Has("help") /\ pc \in Final) => pc \in {"help", "any"} \/ (pc = "fail" /\ err.k = "option")
    /\ ~(Has("bad") \/ Has("lack")) =>
         /\ opt.out = Last("out", "./out") /\ opt.hash = Last("hash", "both")
         /\ opt.dynl = Last("dyn", "/lib64/ld-linux-x86-64.so.2") /\ opt.help = Has("help")
         /\ opt.dirs = LET d == SelectSeq(G, LAMBDA g : g.k = "dir") IN [i \in DOMAIN d |-> d[i].v]
    /\ (pc = "search" /\ Len(ins) = Len(Inputs)) =>
         \A i \in DOMAIN ins : ins[i].n = Inputs[i].v /\ ins[i].lib = (Inputs[i].k = "lib")
=============================================================================
