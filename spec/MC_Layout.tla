------------------------------- MODULE MC_Layout -------------------------------
(* Sections of two objects and an archive member that get together in the   *)
(* program: kinds, sizes, alignments, in every order.                        *)
EXTENDS Rules, Build

K(n, t, f) == [n |-> n, t |-> t, f |-> f]
KindSet == { K(".data", 1, 3), K(".data", 8, 3), K(".rodata", 1, 2), K(".text", 1, 6), K(".bss", 8, 3), K(".bss", 1, 3),
             K(".comment", 1, 48), K(".note", 7, 2), K(".x", 1, 2), K(".x", 1, 3), K(".x", 1, 6), K(".x", 8, 3), K(".x", 1, 7),
             K(".tdata", 1, 1027), K(".tdata", 1, 3), K(".tbss", 8, 1027), K(".tbss", 8, 3), K(".debug", 1, 0), K(".eh_frame", 1879048193, 2), K(".drop", 9, 2),
             K(".rela.x", 4, 0), K(".preinit_array", 16, 3), K(".pre", 16, 2), K(".user", 2147483647, 2), K(".os", 1610612737, 3),
             K(".gattr", 1879048181, 2), K(".order", 1, 130), K(".grp", 1, 515), K(".tdata.v", 1, 1027), K(".tbss.v", 8, 1027), K(".merge", 1, 50), K(".shndx", 18, 2),
            K(".meta", 1, 1), K(".meta.x", 1, 4), K(".meta.z", 8, 0), K(".meta.z", 8, 1), K(".meta.t", 1, 1024),
            K(".keep", 1, 2097155), K(".packed", 1, 2048), K(".keep.x", 1, 2097158), K(".os.w", 1, 1048579), K(".linked", 1, 130) }
Sizes == {0, 1, 7, 24, 4096, 5001}
Aligns == {0, 1, 2, 8, 32, 256, 4096, 16384}
KS == AsSeq({k \in KindSet : k.t \notin {4, 9}})
SS == AsSeq(Sizes)
AS == AsSeq(Aligns)
Draw(s, r, k) == s[((r \div k) % Len(s)) + 1]

Pattern(i) == LET d(n) == HexDigits[(n % 16) + 1] IN d(i) \o d(i \div 3)
RECURSIVE Fill(_, _)
Fill(n, i) == IF n = 0 THEN "" ELSE IF n > 40 THEN LET h == Fill(n \div 2, i) IN h \o h \o (IF n % 2 = 1 THEN Pattern(n) ELSE "")
              ELSE Pattern(n * 5 + i) \o Fill(n - 1, i)
Sec(k, a, s, i) == Section(k.n, k.t, k.f, a, s, IF k.t = 8 THEN "" ELSE Fill(s, i))

Text0(tag) == Section(".text", 1, 6, 16, 16, Fill(16, 3))
Obj(ss, tag) ==
  Object(<<Text0(tag)>> \o ss,
    [i \in DOMAIN ss |-> Symbol("l" \o tag \o ToString(i), 0, IF Bit(ss[i].f, 1024) THEN 6 ELSE 1, i + 1, 0, ss[i].s)]
    \o [i \in DOMAIN ss |-> Symbol("g" \o tag \o ToString(i), 1, IF Bit(ss[i].f, 1024) THEN 6 ELSE 0, i + 1, ss[i].s, 0)]
    \o (IF tag = "a" THEN <<Symbol("_start", 1, 2, 1, 4, 1), Symbol("gm1", 1, 0, 0, 0, 0)>> ELSE <<>>), <<>>)
(* each draws its sections from the numbers i and r *)
Small == <<0, 1, 7, 24, 40, 129>>
S3(r, i) == LET k == Draw(KS, r, 1)
            IN <<Sec(k, Draw(AS, r, 23), Draw(IF i % 6 = 0 \/ k.t = 8 THEN SS ELSE Small, r, 211), i)>>
Cases ==
  [i \in 1..(IF Thorough THEN 12000 ELSE 1000) |->
     LET r == Rnd(i, 1)
         q == Rnd(i, 2)
         u == Rnd(i, 3)
         v == Rnd(i, 4)
     IN CASE i % 4 = 0 -> <<S3(r, i) \o S3(q, i), S3(u, i) \o S3(v, i), S3(r + 7, i)>>
          [] i % 4 = 1 -> <<S3(r, i), S3(q, i) \o S3(u, i), <<>> >>
          [] i % 4 = 2 -> <<S3(r, i) \o S3(q, i) \o S3(u, i), <<>>, S3(v, i)>>
          [] OTHER -> <<S3(r, i), S3(q, i), S3(u, i)>>]
(* one kind, all pairs of sizes and alignments *)
Pairs == Pick(AsSeq({K(".data", 1, 3), K(".bss", 8, 3), K(".tbss", 8, 1027), K(".rodata", 1, 2)} \X {0, 1, 24, 4097} \X Aligns \X {0, 7, 24} \X Aligns), 400, 3000)
PairCases == [i \in DOMAIN Pairs |-> LET p == Pairs[i]
                                     IN <<<<Sec(p[1], p[3], p[2], i)>>, <<Sec(p[1], p[5], p[4], i + 1)>>, <<>> >>]
Params == Cases \o PairCases
AllWorlds ==
  [i \in DOMAIN Params |->
     LET p == Params[i]
     IN MakeWorld("layout" \o ToString(i), "layout", <<"a.o", "libm.a", "b.o">>,
          <<ObjFile("/S/a.o", Obj(p[1], "a")), ObjFile("/S/b.o", Obj(p[2], "b")),
            ArFile("/S/libm.a", <<Member("m.o", Obj(p[3] \o <<Sec(K(".data", 1, 3), 4, 4, 9)>>, "m"))>>)>>)]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
