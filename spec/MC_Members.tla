------------------------------ MODULE MC_Members ------------------------------
(* Archives whose members need each other: an object, an archive of two     *)
(* members, an archive of one, in both orders, with and without a shared    *)
(* library that defines one of the names.  A member defines one name and    *)
(* refers to one.                                                            *)
EXTENDS Rules, Build

N == {"a", "b", "c"}
MDefs == {<<n, 1>> : n \in N} \cup {<<"a", 2>>}
MRefs == {<<"-", 1>>, <<"b", 2>>, <<"b", 3>>} \cup {<<n, 1>> : n \in N}
Members3 == MDefs \X MRefs
ObjRefs == {<< <<"a", 1>> >>, << <<"a", 2>>, <<"b", 1>> >>, << <<"a", 1>>, <<"c", 1>> >>}
Layouts == {"12", "21", "1l2", "l12"}

Glob(n) == "g_" \o n
MRef(r) == IF r[2] = 3 THEN WithVis(Symbol(Glob(r[1]), 1, 0, 0, 0, 0), 2)     \* hidden
           ELSE Symbol(Glob(r[1]), r[2], 0, 0, 0, 0)
(* the definition is at the end of .data; the reference is recorded in it *)
MemberObj(m, k) ==
  LET d == Symbol(Glob(m[1][1]), m[1][2], 1, 1, 8, 8)
      l == Symbol("loc_" \o ToString(k), 0, 1, 1, 0, 8)
  IN IF m[2][1] = "-" THEN Object(<<Data(16)>>, <<l, d>>, <<>>)
     ELSE IF m[2][1] = m[1][1] THEN Object(<<Data(16)>>, <<l, d>>, <<Reloc(1, 0, 1, 2, k)>>)
     ELSE Object(<<Data(16)>>, <<l, d, MRef(m[2])>>, <<Reloc(1, 0, 1, 3, k)>>)

Main(refs) ==
  Object(<<Data(16), Text(16)>>,
         <<Symbol("_start", 1, 2, 2, 0, 1)>> \o [i \in DOMAIN refs |-> Symbol(Glob(refs[i][1]), refs[i][2], 0, 0, 0, 0)],
         [i \in DOMAIN refs |-> Reloc(1, 8 * (i - 1), 1, i + 1, 0)])

Words4(l) == CASE l = "12" -> <<"libx.a", "liby.a">> [] l = "21" -> <<"liby.a", "libx.a">>
               [] l = "1l2" -> <<"libx.a", "libs.so", "-L.", "-ly">> [] OTHER -> <<"libs.so", "libx.a", "liby.a">>

Params == Pick(AsSeq(ObjRefs \X Members3 \X Members3 \X Members3 \X Layouts), 1200, 20000)
AllWorlds ==
  [i \in DOMAIN Params |->
     LET p == Params[i]
     IN MakeWorld("members" \o ToString(i), "members",
          <<"a.o">> \o Words4(p[5]),
          <<ObjFile("/S/a.o", Main(p[1])),
            ArFile("/S/libx.a", <<Member("m.o", MemberObj(p[2], 1)), Member("m.o", MemberObj(p[3], 2))>>),
            ArFile("/S/liby.a", <<Member("a_member_with_a_long_name.o", MemberObj(p[4], 3))>>)>>
          \o (IF p[5] \in {"12", "21"} THEN <<>>
              ELSE <<SoFile("/S/libs.so", Shared("libs.so.2", <<Exports("g_b", 2, 8)>>, <<"g_c">>))>>))]
ASSUME TLCSet(1, AllWorlds)
ASSUME Export
=============================================================================
