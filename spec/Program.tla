------------------------------ MODULE Program ------------------------------
(* The meaning of the file that the linker wrote: what a recorded program   *)
(* (World.obs.img) must look like, given the state in which Link's machine  *)
(* ended.  Every clause that doesn't hold yields a text "tags|what"; the    *)
(* tags are the properties the clause belongs to.                           *)
EXTENDS Link, ElfHash

VARIABLE lay   \* the layout, derived from the link and the recorded section addresses

Obs == World.obs
Img == Obs.img
C(cond, text) == IF cond THEN {} ELSE {text}
Str(x) == ToString(x)

-----------------------------------------------------------------------------
(* Layout: contributions to an output section follow each other in link     *)
(* order, each at the next multiple of its alignment.                       *)
RECURSIVE LaySections(_, _, _, _)
LaySections(o, u, s, a) ==
  IF s > Len(o.secs) THEN a
  ELSE LET x == o.secs[s]
           here == IF x.n \in DOMAIN a.cur THEN a.cur[x.n] ELSE 0
           off == RoundUp(here, x.a)
       IN IF ~Kept(o, s)
          THEN LaySections(o, u, s + 1, [a EXCEPT !.con = Append(@, [u |-> u, s |-> s, n |-> "", off |-> -1, sz |-> 0])])
          ELSE LaySections(o, u, s + 1,
                 [a EXCEPT !.con = Append(@, [u |-> u, s |-> s, n |-> x.n, off |-> off, sz |-> x.s]),
                           !.cur = (x.n :> (off + x.s)) @@ @])
RECURSIVE LayUnits(_, _)
LayUnits(u, a) ==
  IF u > Len(units) THEN a
  ELSE LayUnits(u + 1, LaySections(ObjectOf(units[u]), u, 1, [a EXCEPT !.st = Append(@, Len(a.con))]))

SecOf(n) == LET S == {i \in 2..Len(Img.secs) : Img.secs[i].n = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
NoSec == [n |-> "", t |-> 0, f |-> 0, ad |-> 0, of |-> 0, s |-> 0, l |-> 0, i |-> 0, a |-> 0, e |-> 0, h |-> "", sp |-> FALSE,
         pg |-> <<>>]
SecNamed(n) == IF SecOf(n) = 0 THEN NoSec ELSE Img.secs[SecOf(n)]

TlsPh == LET S == {i \in DOMAIN Img.phs : Img.phs[i].t = 7}
         IN IF S = {} THEN [va |-> 0, ms |-> 0, a |-> 1, fs |-> 0, of |-> 0] ELSE Img.phs[CHOOSE i \in S : TRUE]

NoPlt == [ok |-> FALSE, n |-> "", slot |-> 0, r |-> 0]
(* entry k (from 1) of the PLT: through which slot it goes, and to which symbol *)
PltEntry(k, plt, gp) ==
  LET o == 16 * k
      h == plt.h
      jump == WToNat(WAdd(WNat(plt.ad + o + 6), S32At(h, o + 2)))
      idx == WToNat(U32At(h, o + 7))
      back == WToNat(WAdd(WNat(plt.ad + o + 16), S32At(h, o + 12)))
  IN IF \/ ByteAt(h, o) # 255 \/ ByteAt(h, o + 1) # 37 \/ ByteAt(h, o + 6) # 104 \/ ByteAt(h, o + 11) # 233
        \/ back # plt.ad
        \/ jump < gp.ad + 24 \/ jump + 8 > gp.ad + gp.s \/ (jump - gp.ad) % 8 # 0
        \/ idx \notin 0..(Len(Img.relplt) - 1)
     THEN NoPlt
     ELSE LET r == Img.relplt[idx + 1]
          IN IF r.o # jump \/ r.t # 7 \/ r.y \notin 1..(Len(Img.dsyms) - 1) \/ r.d # W0
                \/ W64At(gp.h, jump - gp.ad) # WNat(plt.ad + o + 6)
             THEN NoPlt
             ELSE [ok |-> TRUE, n |-> Img.dsyms[r.y + 1].n, slot |-> jump, r |-> idx]

(* the objects of shared libraries that the program uses: each is a thing    *)
(* in a library, at an address of it, and may have several names             *)
Imported == DOMAIN imps
(* the library whose definition the loader would take, if the program had none *)
ExportsAs(d, n) == d.n = n /\ d.b # LOCAL_
LoaderTakes(l, n) ==
  /\ \E i \in DOMAIN File(libs[l].f).s.defs : ExportsAs(File(libs[l].f).s.defs[i], n)
  /\ \A k \in 1..(l - 1) : IsNeeded(k) => \A i \in DOMAIN File(libs[k].f).s.defs : ~ExportsAs(File(libs[k].f).s.defs[i], n)
CopiedThings(dyn) ==
  LET objects == {n \in Imported : LibDef(n).t = T_OBJECT /\ ~Protected(n)}
      thing == [n \in objects |-> <<libs[imps[n].l].f, LibDef(n).at>>]
      range == {thing[n] : n \in objects}
  IN {LET ds == File(t[1]).s.defs
          defs == {i \in DOMAIN ds : ds[i].at = t[2] /\ ds[i].t = T_OBJECT /\ ds[i].b # LOCAL_ /\ ds[i].o % 4 # 3}
          own == {n \in objects : thing[n] = t}
          from == {l \in DOMAIN libs : libs[l].f = t[1] /\ IsNeeded(l)}
          (* all names by which the library may use it, unless they mean something else here *)
          names == {n \in {ds[i].n : i \in defs} : /\ n \notin DOMAIN tab /\ n \notin Imported
                                                   /\ \E l \in from : LoaderTakes(l, n)} \cup own
          sizes == {ds[i].z : i \in {j \in defs : ds[j].n \in names}}
          rep == CHOOSE n \in own : TRUE
      IN [t |-> t, defs |-> defs, names |-> names, own |-> own,
          z |-> CHOOSE z \in sizes : \A y \in sizes : y <= z,
          a |-> IF rep \in DOMAIN dyn THEN WToNat(Img.dsyms[dyn[rep]].v) ELSE -1] : t \in range}

Layout ==
  LET a == LayUnits(1, [cur |-> <<>>, con |-> <<>>, st |-> <<>>])
      plt == SecNamed(".plt")
      gp == SecNamed(".got.plt")
      tls == TlsPh
      names == {Img.dsyms[i].n : i \in 2..Len(Img.dsyms)}
      dyn == [n \in names |-> CHOOSE i \in 2..Len(Img.dsyms) : Img.dsyms[i].n = n]
      six == [n \in DOMAIN a.cur |-> SecOf(n)]
  IN [cur |-> a.cur, st |-> a.st,
      missing |-> {n \in DOMAIN a.cur : six[n] = 0},
      con |-> [i \in DOMAIN a.con |->
                 LET c == a.con[i]
                     x == IF c.n \in DOMAIN six THEN six[c.n] ELSE 0
                 IN [u |-> c.u, s |-> c.s, n |-> c.n, off |-> c.off, sz |-> c.sz, x |-> x,
                     ad |-> IF x = 0 THEN -1 ELSE Img.secs[x].ad + c.off]],
      plt |-> plt, gp |-> gp, got |-> SecNamed(".got"), copy |-> SecNamed(".copyrel"),
      copyx |-> SecOf(".copyrel"),
      ent |-> IF Len(plt.h) # 2 * plt.s THEN <<>> ELSE [k \in 1..((plt.s \div 16) - 1) |-> PltEntry(k, plt, gp)],
      dyn |-> dyn, cp |-> CopiedThings(dyn), ex |-> ExportedNames,
      rel |-> [o \in {Img.reldyn[i].o : i \in DOMAIN Img.reldyn} |-> {i \in DOMAIN Img.reldyn : Img.reldyn[i].o = o}],
      tls |-> tls.va, tp |-> tls.va + RoundUp(tls.ms, tls.a)]

Place(u, s) == lay.con[lay.st[u] + s]
KeptIn == {i \in DOMAIN lay.con : lay.con[i].off >= 0}
SecIn(c) == ObjectOf(units[c.u]).secs[c.s]      \* the section of the input

-----------------------------------------------------------------------------
(* Addresses *)
SymtabAll(n) == {i \in DOMAIN Img.syms : Img.syms[i].b # LOCAL_ /\ Img.syms[i].n = n}
Bounds(n) == CASE n \in {"__init_array_start", "__init_array_end"} -> ".init_array"
               [] n \in {"__fini_array_start", "__fini_array_end"} -> ".fini_array"
IsEnd(n) == n \in {"__init_array_end", "__fini_array_end"}
LdValue(n) ==
  IF n = "_GLOBAL_OFFSET_TABLE_" THEN WNat(lay.gp.ad)
  ELSE IF SecOf(Bounds(n)) # 0
       THEN LET s == SecNamed(Bounds(n)) IN WNat(s.ad + IF IsEnd(n) THEN s.s ELSE 0)
       ELSE LET S == SymtabAll(n) IN IF S = {} THEN W0 ELSE Img.syms[CHOOSE i \in S : TRUE].v

HasDsym(n) == n \in DOMAIN lay.dyn
Dsym(n) == Img.dsyms[lay.dyn[n]]

Value(t) ==
  CASE t.k = "sec" -> WAdd(WNat(Place(t.u, t.s).ad), t.v)
    [] t.k = "abs" -> t.v
    [] t.k = "imp" -> IF HasDsym(t.n) THEN Dsym(t.n).v ELSE W0
    [] t.k = "ld" -> LdValue(t.n)
    [] OTHER -> W0

IsFunc(t) == t.k = "imp" /\ t.t \notin {T_OBJECT, T_TLS}

PltAt(n, aw) ==   \* the address is that of the PLT entry of n
  LET a == WToNat(aw)
      k == (a - lay.plt.ad) \div 16
  IN /\ a >= lay.plt.ad + 16 /\ (a - lay.plt.ad) % 16 = 0
     /\ k \in DOMAIN lay.ent
     /\ lay.ent[k].ok /\ lay.ent[k].n = n

DynRelsAt(a) == IF a \in DOMAIN lay.rel THEN lay.rel[a] ELSE {}
DynRel(a, t, n) ==   \* exactly this dynamic relocation there
  LET R == DynRelsAt(a)
  IN /\ Cardinality(R) = 1
     /\ \A i \in R : /\ Img.reldyn[i].t = t /\ Img.reldyn[i].d = W0
                     /\ Img.reldyn[i].y \in 1..(Len(Img.dsyms) - 1)
                     /\ Img.dsyms[Img.reldyn[i].y + 1].n = n
InGot(a, size) == a >= lay.got.ad /\ a + size <= lay.got.ad + lay.got.s /\ (a - lay.got.ad) % 8 = 0
GotWord(a) == W64At(lay.got.h, a - lay.got.ad)

Slot(t, aw) ==   \* the slot holds the target's address
  LET a == WToNat(aw)
  IN /\ InGot(a, 8)
     /\ \/ t.k = "imp" /\ t.t # T_TLS /\ DynRel(a, 6, t.n)
        \/ ~IsFunc(t) /\ ~(IF t.k = "imp" THEN Protected(t.n) ELSE FALSE)
           /\ DynRelsAt(a) = {} /\ GotWord(a) = Value(t)
TpSlot(t, aw) ==
  LET a == WToNat(aw)
  IN /\ InGot(a, 8)
     /\ IF t.k = "imp" THEN DynRel(a, 18, t.n)
        ELSE DynRelsAt(a) = {} /\ GotWord(a) = WSub(Value(t), WNat(lay.tp))
GdSlots(t, aw) ==
  LET a == WToNat(aw)
  IN /\ InGot(a, 16)
     /\ IF t.k = "imp" THEN DynRel(a, 16, t.n) /\ DynRel(a + 8, 17, t.n)
        ELSE /\ DynRelsAt(a) = {} /\ DynRelsAt(a + 8) = {}
             /\ GotWord(a) = WNat(1) /\ GotWord(a + 8) = WSub(Value(t), WNat(lay.tls))

-----------------------------------------------------------------------------
(* Relocated fields.  p: the contribution, r: the relocation *)
RelKept(u) == LET o == ObjectOf(units[u])
              IN {i \in DOMAIN o.rels : o.rels[i].s < Len(o.secs) /\ Kept(o, o.rels[i].s + 1)}

(* the contents are known *)
Recorded(s) == s.sp \/ s.t = NOBITS \/ s.s = 0 \/ s.h # ""

FieldOK(u, r) ==
  LET p == Place(u, r.s + 1)
      out == Img.secs[p.x]
      h == Around(out, p.off + r.o)
      o == 4
      P == WNat(out.ad + p.off + r.o)
      t == Target(u, r.y)
      SA == WAdd(Value(t), r.d)
      f == S32At(h, o)
      inh == Around(SecIn(p), r.o)
      same(k) == HexRange(h, o - k, o) = HexRange(inh, o - k, o)
      slot == WAdd(WSub(f, r.d), P)
      own == t.k # "imp"
  IN CASE r.t = 0 \/ ~Recorded(out) \/ ~Recorded(SecIn(p)) -> TRUE
       [] r.t = 1 -> W64At(h, o) = SA /\ (IsFunc(t) => PltAt(t.n, Value(t)))
       [] r.t = 2 -> f = WSub(SA, P) /\ (IsFunc(t) => PltAt(t.n, Value(t)))
       [] r.t = 4 -> IF own THEN f = WSub(SA, P) ELSE PltAt(t.n, slot)
       [] r.t = 10 -> U32At(h, o) = SA /\ (IsFunc(t) => PltAt(t.n, Value(t)))
       [] r.t = 11 -> f = SA /\ (IsFunc(t) => PltAt(t.n, Value(t)))
       [] r.t = 3 -> Slot(t, WAdd(WSub(f, r.d), WNat(lay.gp.ad)))
       [] r.t = 9 -> Slot(t, slot)
       [] r.t = 41 ->
            \/ same(2) /\ Slot(t, slot)
            \/ /\ own /\ ByteAt(inh, o - 2) = 255 /\ ByteAt(inh, o - 1) = 21
               /\ \/ /\ ByteAt(h, o - 2) = 232 /\ ByteAt(h, o + 3) = 144
                     /\ S32At(h, o - 1) = WAdd(WSub(SA, P), WNat(1))
                  \/ ByteAt(h, o - 2) = 103 /\ ByteAt(h, o - 1) = 232 /\ f = WSub(SA, P)
            \/ /\ own /\ ByteAt(inh, o - 2) = 255 /\ ByteAt(inh, o - 1) = 37
               /\ ByteAt(h, o - 2) = 233 /\ ByteAt(h, o + 3) = 144
               /\ S32At(h, o - 1) = WAdd(WSub(SA, P), WNat(1))
            \/ /\ own /\ ByteAt(inh, o - 2) = 139 /\ ByteAt(h, o - 2) = 141
               /\ ByteAt(inh, o - 1) = ByteAt(h, o - 1) /\ f = WSub(SA, P)
       [] r.t = 42 ->
            \/ same(3) /\ Slot(t, slot)
            \/ /\ own /\ ByteAt(inh, o - 2) = 139 /\ ByteAt(h, o - 2) = 141
               /\ ByteAt(inh, o - 3) = ByteAt(h, o - 3) /\ ByteAt(inh, o - 1) = ByteAt(h, o - 1)
               /\ f = WSub(SA, P)
       [] r.t = 19 -> GdSlots(t, slot)
       [] r.t = 22 -> TpSlot(t, slot)
       [] r.t = 23 -> own /\ f = WSub(SA, WNat(lay.tp))
       [] r.t = 21 -> own /\ f = WSub(SA, WNat(lay.tls))
       [] r.t = 18 -> own /\ W64At(h, o) = WSub(SA, WNat(lay.tp))
       [] r.t = 17 -> own /\ W64At(h, o) = WSub(SA, WNat(lay.tls))
       [] r.t = 24 -> W64At(h, o) = WSub(SA, P)
       [] r.t = 25 -> W64At(h, o) = WSub(SA, WNat(lay.gp.ad))
       [] r.t = 26 -> f = WSub(WAdd(WNat(lay.gp.ad), r.d), P)
       [] OTHER -> FALSE

FieldTags(u, r) ==
  LET t == Target(u, r.y)
      glob == r.y # 0 /\ ObjectOf(units[u]).syms[r.y + 1].b # LOCAL_
  IN "C03" \o (IF glob THEN ",C01" ELSE IF r.y = 0 THEN "" ELSE ",C02")
     \o (CASE t.k = "imp" -> (IF t.t = T_OBJECT THEN ",C10,C09" ELSE ",C09")
           [] t.k = "ld" -> ",C20" [] t.k = "zero" -> ",C06" [] OTHER -> "")

FieldClauses ==
  UNION {LET o == ObjectOf(units[u])
         IN {FieldTags(u, o.rels[i]) \o "|field " \o Str(<<u, o.rels[i].s, o.rels[i].o, o.rels[i].t, o.rels[i].y>>)
             : i \in {j \in RelKept(u) : ~FieldOK(u, o.rels[j])}} : u \in DOMAIN units}

(* the part of the section that a relocation may change *)
Window(u, r) ==
  CASE r.t = 0 -> <<r.o, r.o>>
    [] r.t \in {1, 16, 17, 18, 24, 25} -> <<r.o, r.o + 8>>
    [] r.t = 41 -> <<r.o - 2, r.o + 4>>
    [] r.t = 42 -> <<r.o - 3, r.o + 4>>
    [] OTHER -> <<r.o, r.o + 4>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

RECURSIVE Windows(_, _, _, _)
Windows(u, s, i, acc) ==
  LET o == ObjectOf(units[u])
  IN IF i > Len(o.rels) THEN SortSeq(acc, Before)
     ELSE Windows(u, s, i + 1, IF o.rels[i].s + 1 = s THEN Append(acc, Window(u, o.rels[i])) ELSE acc)

(* from pos on, up to end, the bytes of x are those of out at off, except in the windows ws *)
RECURSIVE SameBetween(_, _, _, _, _, _)
SameBetween(x, out, off, ws, pos, end) ==
  IF pos >= end THEN TRUE
  ELSE IF ws = <<>> THEN Part(x, pos, end) = Part(out, off + pos, off + end)
  ELSE LET v == Head(ws)
           e == Min(v[1], end)
       IN /\ (e > pos => Part(x, pos, e) = Part(out, off + pos, off + e))
          /\ SameBetween(x, out, off, Tail(ws), Max(pos, v[2]), end)

AllZero(s, a, b) == Part(s, a, b) = Zeros(b - a)

(* the spans (from, to) of the contribution in which something may not be zero *)
Spans(x, out, off, size) ==
  IF ~out.sp THEN {<<0, size>>}
  ELSE LET cut(a, b) == <<Max(a, 0), Min(b, size)>>
           of == {cut(out.pg[i][1] * 4096 - off, (out.pg[i][1] + 1) * 4096 - off) : i \in DOMAIN out.pg}
           from == IF x.t = NOBITS THEN {}
                   ELSE IF x.sp THEN {cut(x.pg[i][1] * 4096, (x.pg[i][1] + 1) * 4096) : i \in DOMAIN x.pg}
                   ELSE {<<0, size>>}
       IN {c \in of \cup from : c[1] < c[2]}

Intact(c) ==
  LET x == SecIn(c)
      out == Img.secs[c.x]
  IN \/ c.sz = 0
     \/ out.t = NOBITS /\ x.t = NOBITS
     \/ /\ out.t # NOBITS
        /\ c.off + c.sz <= out.s
        /\ \/ ~Recorded(out) \/ ~Recorded(x)                 \* too large
           \/ LET ws == Windows(c.u, c.s, 1, <<>>)
              IN \A d \in Spans(x, out, c.off, c.sz) :
                   IF x.t = NOBITS THEN AllZero(out, c.off + d[1], c.off + d[2])
                   ELSE SameBetween(x, out, c.off, ws, d[1], d[2])

-----------------------------------------------------------------------------
(* C04, C05: sections and segments *)
Alloc(s) == Bit(s.f, F_ALLOC)
AllocIx == {i \in 2..Len(Img.secs) : Alloc(Img.secs[i])}
FileSize(s) == IF s.t = NOBITS THEN 0 ELSE s.s
ContribOf(n) == {i \in KeptIn : lay.con[i].n = n}
AnyFlag(S, b) == \E i \in S : Bit(SecIn(lay.con[i]).f, b)

PlacementClauses ==
  C(\A i, j \in 2..Len(Img.secs) : i # j => Img.secs[i].n # Img.secs[j].n, "C04|two output sections of one name")
  \cup UNION {LET s == Img.secs[SecOf(n)]
                  S == ContribOf(n)
                  types == {SecIn(lay.con[i]).t : i \in S}
              IN C(s.s = lay.cur[n], "C04|size of " \o n)
                 \cup C(\A b \in {F_WRITE, F_ALLOC, F_EXEC} : Bit(s.f, b) = AnyFlag(S, b), "C05,C04|flags of " \o n)
                 \cup C((AnyFlag(S, F_TLS)) => Bit(s.f, F_TLS), "C05,C03|flags of " \o n)
                 \cup C(\A i \in S : Alloc(s) => s.a >= SecIn(lay.con[i]).a, "C04|declared alignment of " \o n)
                 \cup C(\A i \in S : LET a == SecIn(lay.con[i]).a
                                     IN (Alloc(s) /\ a > 1) => s.ad % a = 0, "C04|alignment of " \o n)
                 \cup C(IF types = {NOBITS} THEN s.t = NOBITS ELSE s.t \in types \ {NOBITS}, "C04|type of " \o n)
              : n \in DOMAIN lay.cur}
  \cup {"C04,C03|bytes of contribution " \o Str(<<lay.con[i].u, lay.con[i].s, lay.con[i].n>>)
          : i \in {j \in KeptIn : ~Intact(lay.con[j])}}
  \cup C(\A i \in AllocIx : LET s == Img.secs[i] IN s.a <= 1 \/ s.ad % s.a = 0, "C04|section isn't aligned")
  \cup C(\A i \in AllocIx, j \in AllocIx :
           LET s == Img.secs[i]
               t == Img.secs[j]
           IN (i < j /\ s.s > 0 /\ t.s > 0) => (s.ad + s.s <= t.ad \/ t.ad + t.s <= s.ad),
         "C04|sections overlap in memory")
  \cup C(\A i, j \in 2..Len(Img.secs) :
           LET s == Img.secs[i]
               t == Img.secs[j]
           IN (i < j /\ FileSize(s) > 0 /\ FileSize(t) > 0) => (s.of + s.s <= t.of \/ t.of + t.s <= s.of),
         "C04|sections overlap in the file")
  \cup C(\A i \in 2..Len(Img.secs) :
           LET s == Img.secs[i]
           IN FileSize(s) > 0 => /\ s.of >= 64 + (56 * Img.phn)
                                 /\ (s.of + s.s <= Img.shoff \/ s.of >= Img.shoff + 64 * Img.shn)
                                 /\ s.of + s.s <= Img.size,
         "C04,C05,C13|section overlaps the headers")

Loads == {i \in DOMAIN Img.phs : Img.phs[i].t = 1}
Perm(s) == 4 + (IF Bit(s.f, F_WRITE) THEN 2 ELSE 0) + (IF Bit(s.f, F_EXEC) THEN 1 ELSE 0)
Inside(s, p) == s.ad >= p.va /\ s.ad + s.s <= p.va + p.ms
Maps(s, p) ==
  IF s.t = NOBITS THEN s.ad >= p.va + p.fs
  ELSE s.of - p.of = s.ad - p.va /\ s.of + s.s <= p.of + p.fs
PhsOf(t) == {i \in DOMAIN Img.phs : Img.phs[i].t = t}
The(t, cond(_)) == Cardinality(PhsOf(t)) = 1 /\ \A i \in PhsOf(t) : cond(Img.phs[i])
Describes(p, s) == p.va = s.ad /\ p.of = s.of /\ p.fs = s.s /\ p.ms = s.s /\ p.pa = p.va
TlsIx == {i \in AllocIx : Bit(Img.secs[i].f, F_TLS)}

SegmentClauses ==
  {"C05|mapping of " \o Img.secs[i].n :
     i \in {j \in AllocIx : LET s == Img.secs[j]
                                In == {l \in Loads : Inside(s, Img.phs[l])}
                            IN s.s > 0 /\ ~(Cardinality(In) = 1 /\ \A l \in In : Maps(s, Img.phs[l]))}}
  \cup {"C05|permissions of " \o Img.secs[i].n :
     i \in {j \in AllocIx : LET s == Img.secs[j]
                            IN s.s > 0 /\ \E l \in Loads : Inside(s, Img.phs[l]) /\ Img.phs[l].f # Perm(s)}}
  \cup C(\A l \in Loads : LET p == Img.phs[l]
                          IN /\ p.of % Page = p.va % Page /\ p.fs <= p.ms
                             /\ p.of + p.fs <= Img.size /\ p.pa = p.va
                             /\ p.a >= Page /\ p.va % p.a = p.of % p.a,
         "C05|segment isn't congruent or outside the file")
  \cup C(\A l, m \in Loads : l < m => RoundUp(Img.phs[l].va + Img.phs[l].ms, Page) <= (Img.phs[m].va \div Page) * Page,
         "C05|segments aren't ascending or share a page")
  \cup C(The(6, LAMBDA p : /\ p.of = Img.phoff /\ p.fs = 56 * Img.phn /\ p.ms = p.fs /\ p.pa = p.va
                           /\ \E l \in Loads : Img.phs[l].of <= p.of /\ p.va - Img.phs[l].va = p.of - Img.phs[l].of
                                               /\ p.of + p.fs <= Img.phs[l].of + Img.phs[l].fs),
         "C05,C13|program header entry")
  \cup C(The(3, LAMBDA p : Describes(p, SecNamed(".interp"))), "C05,C13|interpreter entry")
  \cup C(The(2, LAMBDA p : Describes(p, SecNamed(".dynamic"))), "C05,C13|dynamic entry")
  \cup C(\A i \in PhsOf(6) \cup PhsOf(3), l \in Loads : i < l, "C05,C13|entries after the segments")
  \cup IF TlsIx = {} THEN C(PhsOf(7) = {}, "C05|needless thread-local entry")
       ELSE C(The(7, LAMBDA p :
                /\ \A i \in TlsIx : Inside(Img.secs[i], p) /\ (Img.secs[i].s > 0 => Maps(Img.secs[i], p))
                /\ \E i \in TlsIx : Img.secs[i].ad = p.va
                /\ \E i \in TlsIx : Img.secs[i].ad + Img.secs[i].s = p.va + p.ms
                /\ \A i \in TlsIx : p.a >= Img.secs[i].a
                /\ p.a <= 1 \/ p.va % p.a = 0), "C05,C03|thread-local entry")

-----------------------------------------------------------------------------
(* C14: the static symbol table *)
SymOut(s, t) ==  \* section, value of a symbol s of an input with target t
  IF t.k = "sec" THEN <<Place(t.u, t.s).x - 1,
                        IF s.t = T_TLS THEN WSub(Value(t), WNat(lay.tls)) ELSE Value(t)>>
  ELSE IF t.k = "abs" THEN <<ABS, t.v>>
  ELSE <<0, W0>>

LocalKeys == UNION {LET o == ObjectOf(units[u])
                    IN {<<u, i>> : i \in {j \in 2..Len(o.syms) :
                          /\ o.syms[j].b = LOCAL_ /\ o.syms[j].t # T_SECTION /\ o.syms[j].n # ""
                          /\ (o.syms[j].x = ABS \/ o.syms[j].x = 0 \/ Kept(o, o.syms[j].x + 1))}} : u \in DOMAIN units}
LocalOut(k) == LET s == ObjectOf(units[k[1]]).syms[k[2]]
                   p == SymOut(s, Target(k[1], k[2] - 1))
               IN <<s.n, s.t, s.z, p[1], p[2]>>
SymIx == SecOf(".symtab")
NLocal == IF SymIx = 0 THEN 0 ELSE Img.secs[SymIx].i
SeenLocal == {j \in 2..Min(NLocal, Len(Img.syms)) : Img.syms[j].n # ""}
SeenKey(j) == LET s == Img.syms[j] IN <<s.n, s.t, s.z, s.x, s.v>>

GlobalOK(n) ==
  LET S == SymtabAll(n)
      o == Img.syms[CHOOSE i \in S : TRUE]
      e == tab[n]
  IN /\ Cardinality(S) = 1
     /\ IF IsDefined(e)
        THEN LET s == ObjectOf(units[e.d[1]]).syms[e.d[2]]
                 p == SymOut(s, TargetOf(n))
             IN o.b = s.b /\ o.t = s.t /\ o.z = s.z /\ o.o % 4 = e.v /\ o.x = p[1] /\ o.v = p[2]
        ELSE IF n \notin DOMAIN imps /\ n \in LinkerDefined THEN o.v = LdValue(n)
        ELSE o.x = 0 /\ o.v = W0 /\ o.b = (IF e.b = "W" THEN 2 ELSE 1)

GlobalTags(n) ==
  "C14" \o (IF IsDefined(tab[n]) THEN ",C01" \o (IF units[tab[n].d[1]][2] # 0 THEN ",C08" ELSE "")
            ELSE IF n \in LinkerDefined THEN ",C20" ELSE ",C01")

SymbolClauses ==
  C(Img.nsymtab = 1 /\ Len(Img.syms) >= 1, "C14,C13|no symbol table")
  \cup {GlobalTags(n) \o "|symbol " \o n : n \in {x \in DOMAIN tab : ~GlobalOK(x)}}
  \cup {"C14,C08|unexpected symbol " \o Img.syms[i].n :
          i \in {j \in DOMAIN Img.syms : Img.syms[j].b # LOCAL_ /\ Img.syms[j].n \notin DOMAIN tab}}
  \cup C(\A i \in DOMAIN Img.syms : (i <= NLocal) = (Img.syms[i].b = LOCAL_), "C14|locals don't come first")
  \cup C(\A i \in DOMAIN Img.syms : i = 1 => /\ Img.syms[i].n = "" /\ Img.syms[i].x = 0 /\ Img.syms[i].v = W0,
         "C14|first symbol isn't null")
  \cup LET K == LocalKeys
           exp == [k \in K |-> LocalOut(k)]
           seen == [j \in SeenLocal |-> SeenKey(j)]
           keys == {exp[k] : k \in K}
           wrong == {e \in keys : Cardinality({k \in K : exp[k] = e}) # Cardinality({j \in SeenLocal : seen[j] = e})}
           extra == {seen[j] : j \in SeenLocal} \ keys
       IN {"C14,C02,C08|local symbol " \o e[1] : e \in wrong} \cup {"C14,C02,C08|unexpected local symbol " \o e[1] : e \in extra}

-----------------------------------------------------------------------------
(* C09, C10: imports, and the loader's view of them *)
DynIx == 2..Len(Img.dsyms)
DynNames == Imported \cup lay.ex \cup UNION {c.names : c \in lay.cp}
CopyRels == {i \in DOMAIN Img.reldyn : Img.reldyn[i].t = 5}
NameOfRel(i) == IF Img.reldyn[i].y \in 1..(Len(Img.dsyms) - 1) THEN Img.dsyms[Img.reldyn[i].y + 1].n ELSE ""
SizeOfRel(i) == IF Img.reldyn[i].y \in 1..(Len(Img.dsyms) - 1) THEN Img.dsyms[Img.reldyn[i].y + 1].z ELSE -1
CopyOK(c) ==
  LET ds == File(c.t[1]).s.defs
      (* what has no size may share its place *)
      here == {i \in DynRelsAt(c.a) : Img.reldyn[i].t = 5 /\ (NameOfRel(i) \in c.names \/ (c.z > 0 /\ SizeOfRel(i) # 0))}
      align == ds[CHOOSE i \in c.defs : TRUE].al
  IN /\ Cardinality(here) = 1
     (* the loader copies as much as the named symbol covers *)
     /\ \A i \in here : Img.reldyn[i].d = W0 /\ NameOfRel(i) \in c.names /\ SizeOfRel(i) = c.z
     /\ c.a % align = 0
     /\ c.a >= lay.copy.ad /\ c.a + c.z <= lay.copy.ad + lay.copy.s
     /\ \A n \in c.names :
          /\ HasDsym(n) /\ WToNat(Dsym(n).v) = c.a
          /\ Dsym(n).x + 1 = lay.copyx
          /\ Dsym(n).t = T_OBJECT
     /\ \A i \in c.defs : ds[i].n \in c.names => Dsym(ds[i].n).z = ds[i].z

(* a library finds the program's definition as it is *)
ExportOK(n) ==
  /\ HasDsym(n)
  /\ LET S == SymtabAll(n)
     IN \A i \in S : LET o == Img.syms[i]
                          d == Dsym(n)
                      IN d.x = o.x /\ d.x # 0 /\ d.v = o.v /\ d.z = o.z /\ d.t = o.t /\ d.b = o.b

ImportClauses ==
  IF Img.ndynsym # 1 \/ Len(Img.dsyms) = 0 THEN {"C09,C13|no dynamic symbol table"}
  ELSE
  LET dynnames == DynNames
      imported == Imported
      objects == UNION {c.own : c \in lay.cp}
  IN
  {(IF n \in lay.ex THEN "C23,C11|" ELSE "C09,C10|import ") \o n \o " isn't listed once" :
     n \in {x \in dynnames : Cardinality({i \in DynIx : Img.dsyms[i].n = x}) # 1}}
  \cup {"C09,C01,C06,C23|unexpected dynamic symbol " \o Img.dsyms[i].n : i \in {j \in DynIx : Img.dsyms[j].n \notin dynnames}}
  \cup C(\A i \in DynIx : Img.dsyms[i].b # LOCAL_, "C09|local dynamic symbol")
  \cup {"C09,C10|the loader won't look for " \o Img.dsyms[i].n :
            i \in {j \in DynIx : Img.dsyms[j].o % 4 # (IF Img.dsyms[j].n \in lay.ex THEN tab[Img.dsyms[j].n].v ELSE 0)}}
  \cup {"C23|the libraries don't find " \o n : n \in {x \in lay.ex : ~ExportOK(x)}}
  \cup C(Img.dsyms[1].n = "" /\ Img.dsyms[1].x = 0, "C09|first dynamic symbol isn't null")
  \cup {"C09|function symbol " \o n :
          n \in {x \in imported \ objects : HasDsym(x) /\ ~(/\ Dsym(x).x = 0
                                                          /\ (Dsym(x).v = W0 \/ PltAt(x, Dsym(x).v)))}}
  \cup C(lay.plt.s % 16 = 0 /\ lay.plt.s >= 16 /\ Len(lay.ent) = Len(Img.relplt)
         /\ lay.gp.s = 8 * (3 + Len(Img.relplt)), "C09|sizes of the PLT")
  \cup C(\A k \in DOMAIN lay.ent : lay.ent[k].ok, "C09|PLT entry")
  \cup LET ok == {k \in DOMAIN lay.ent : lay.ent[k].ok}
           N == Cardinality(ok)
       IN C(Cardinality({lay.ent[k].slot : k \in ok}) = N /\ Cardinality({lay.ent[k].r : k \in ok}) = N
            /\ Cardinality({lay.ent[k].n : k \in ok}) = N, "C09|PLT slot is shared")
  \cup C(LET h == lay.plt.h
         IN /\ ByteAt(h, 0) = 255 /\ ByteAt(h, 1) = 53 /\ ByteAt(h, 6) = 255 /\ ByteAt(h, 7) = 37
            /\ WAdd(WNat(lay.plt.ad + 6), S32At(h, 2)) = WNat(lay.gp.ad + 8)
            /\ WAdd(WNat(lay.plt.ad + 12), S32At(h, 8)) = WNat(lay.gp.ad + 16), "C09|PLT header")
  \cup C(\A i \in DOMAIN Img.relplt : LET r == Img.relplt[i]
                                      IN r.t = 7 /\ r.y \in 1..(Len(Img.dsyms) - 1)
                                         /\ Img.dsyms[r.y + 1].n \in imported, "C09|lazy relocation")
  \cup C(\A i \in DOMAIN Img.reldyn :
           LET r == Img.reldyn[i]
           IN /\ r.t \in {5, 6, 16, 17, 18}
              /\ r.y \in 1..(Len(Img.dsyms) - 1) /\ Img.dsyms[r.y + 1].n \in dynnames
              /\ IF r.t = 5 THEN r.o >= lay.copy.ad /\ r.o < lay.copy.ad + lay.copy.s + 1 ELSE InGot(r.o, 8),
         "C09,C10|dynamic relocation")
  \cup C(\A o \in DOMAIN lay.rel : Cardinality({i \in lay.rel[o] : Img.reldyn[i].t # 5 \/ SizeOfRel(i) # 0}) <= 1,
         "C09,C10|place relocated twice")
  \cup IF \E n \in objects : ~HasDsym(n) THEN {"C10|object without symbol"}
       ELSE {"C10|copy of " \o c.t[2] : c \in {x \in lay.cp : ~CopyOK(x)}}
            \cup C(Cardinality(CopyRels) = Cardinality(lay.cp), "C10|number of copy relocations")
            \cup C(\A c, d \in lay.cp : c = d \/ c.a + c.z <= d.a \/ d.a + d.z <= c.a, "C10|copies overlap")
            \cup C(lay.cp # {} => lay.copy.t = NOBITS /\ Bit(lay.copy.f, F_WRITE) /\ Alloc(lay.copy), "C10|section of the copies")
            \cup C(lay.cp = {} => lay.copy.s = 0, "C10|space for no object")

-----------------------------------------------------------------------------
(* C11, C16: hash tables *)
HasSysv == \E i \in 2..Len(Img.secs) : Img.secs[i].t = 5
HasGnu == \E i \in 2..Len(Img.secs) : Img.secs[i].t = 1879048182
HashClauses ==
  LET DynCodes == [i \in DOMAIN Img.dsyms |-> Img.dsyms[i].c]
      Absent == {j \in DOMAIN World.probes : \A i \in DynIx : DynCodes[i] # World.probes[j]}
  IN C(HasSysv = (opt.hash \in {"sysv", "both"}) /\ HasGnu = (opt.hash \in {"gnu", "both"}), "C16|hash tables")
  \cup (IF ~HasSysv THEN {} ELSE
        IF ~SysvShape(Img.hash, Len(Img.dsyms)) THEN {"C11|shape of the SysV table"}
        ELSE {"C11|SysV lookup of " \o Img.dsyms[i].n :
                i \in {j \in DynIx : SysvLookup(Img.hash, DynCodes, Img.dsyms[j].c) # j - 1}}
             \cup {"C11|SysV lookup of absent name " \o Str(i) :
                i \in {j \in Absent : SysvLookup(Img.hash, DynCodes, World.probes[j]) # 0}})
  \cup (IF ~HasGnu THEN {} ELSE
        IF ~GnuShape(Img.gnu, Len(Img.dsyms)) THEN {"C11|shape of the GNU table"}
        ELSE {"C11|GNU lookup of " \o Img.dsyms[i].n :
                i \in {j \in DynIx : GnuLookup(Img.gnu, DynCodes, Img.dsyms[j].c) # j - 1}}
             \cup {"C11|GNU lookup of absent name " \o Str(i) :
                i \in {j \in Absent : GnuLookup(Img.gnu, DynCodes, World.probes[j]) # 0}})

-----------------------------------------------------------------------------
(* C12, C13: dynamic table and headers *)
TagsOf(g) == {i \in DOMAIN Img.dyn : Img.dyn[i].g = g}
Entry(g, present, v) == IF present THEN Cardinality(TagsOf(g)) = 1 /\ \A i \in TagsOf(g) : Img.dyn[i].v = v
                        ELSE TagsOf(g) = {}
Present(n) == SecOf(n) # 0
SecTyped(t) == LET S == {i \in 2..Len(Img.secs) : Img.secs[i].t = t} IN IF S = {} THEN NoSec ELSE Img.secs[CHOOSE i \in S : TRUE]
RECURSIVE NeededSeen(_, _)
NeededSeen(i, acc) == IF i > Len(Img.dyn) THEN acc
                      ELSE NeededSeen(i + 1, IF Img.dyn[i].g = 1 THEN Append(acc, Img.dyn[i].s) ELSE acc)
RECURSIVE Without(_, _)
Without(seq, x) == IF seq = <<>> THEN <<>> ELSE IF Head(seq) = x THEN Without(Tail(seq), x)
                   ELSE <<Head(seq)>> \o Without(Tail(seq), x)
LoaderName == BaseName(opt.dynl)

NeededClauses ==
  C(Cardinality({i \in DOMAIN Img.dyn : Img.dyn[i].g = 1 /\ Img.dyn[i].s = LoaderName}) = 1, "C12|loader isn't needed once")
  \cup C(Without(NeededSeen(1, <<>>), LoaderName) = Without(NeededLibraries, LoaderName), "C12|needed libraries")
  \cup C(Img.interp = opt.dynl, "C12,C16|interpreter")

DynamicClauses ==
  C(Len(Img.dyn) >= 1 /\ Img.dyn[Len(Img.dyn)].g = 0 /\ Cardinality(TagsOf(0)) = 1
    /\ SecNamed(".dynamic").s = 16 * Len(Img.dyn), "C13|end of the dynamic table")
  \cup C(Entry(4, HasSysv, SecTyped(5).ad), "C13|DT_HASH")
  \cup C(Entry(1879047925, HasGnu, SecTyped(1879048182).ad), "C13|DT_GNU_HASH")
  \cup C(Entry(5, TRUE, SecNamed(".dynstr").ad) /\ Entry(10, TRUE, SecNamed(".dynstr").s), "C13|DT_STRTAB")
  \cup C(Entry(6, TRUE, SecNamed(".dynsym").ad) /\ Entry(11, TRUE, 24), "C13|DT_SYMTAB")
  \cup C(Entry(3, Present(".got.plt"), SecNamed(".got.plt").ad), "C13|DT_PLTGOT")
  \cup C(LET p == Present(".rela.plt") /\ (SecNamed(".rela.plt").s > 0 \/ TagsOf(23) # {})
             s == SecNamed(".rela.plt")
         IN Entry(23, p, s.ad) /\ Entry(2, p, s.s) /\ Entry(20, p, 7), "C13|DT_JMPREL")
  \cup C(LET p == Present(".rela.dyn") /\ (SecNamed(".rela.dyn").s > 0 \/ TagsOf(7) # {})
             s == SecNamed(".rela.dyn")
         IN Entry(7, p, s.ad) /\ Entry(8, p, s.s) /\ Entry(9, p, 24), "C13|DT_RELA")
  \cup C(\A i \in TagsOf(1879048185) : Img.dyn[i].v = 0, "C13|DT_RELACOUNT")
  \cup C(Entry(12, Present(".init"), SecNamed(".init").ad), "C13|DT_INIT")
  \cup C(Entry(13, Present(".fini"), SecNamed(".fini").ad), "C13|DT_FINI")
  \cup C(Entry(25, Present(".init_array"), SecNamed(".init_array").ad)
         /\ Entry(27, Present(".init_array"), SecNamed(".init_array").s), "C13,C20|DT_INIT_ARRAY")
  \cup C(Entry(26, Present(".fini_array"), SecNamed(".fini_array").ad)
         /\ Entry(28, Present(".fini_array"), SecNamed(".fini_array").s), "C13,C20|DT_FINI_ARRAY")

LinkTo(s, t) == s.l + 1 \in DOMAIN Img.secs /\ Img.secs[s.l + 1].t = t
LinkName(s, n) == s.l + 1 \in DOMAIN Img.secs /\ Img.secs[s.l + 1].n = n
HeaderOK(s) ==
  CASE s.t = 2 -> s.e = 24 /\ LinkTo(s, 3) /\ LinkName(s, ".strtab") /\ s.s = 24 * Len(Img.syms)
    [] s.t = 11 -> s.e = 24 /\ LinkTo(s, 3) /\ LinkName(s, ".dynstr") /\ s.i = 1 /\ s.s = 24 * Len(Img.dsyms)
    [] s.t = 4 -> s.e = 24 /\ s.s % 24 = 0 /\ LinkTo(s, 11)
    [] s.t = 5 -> s.e = 4 /\ LinkTo(s, 11) /\ s.s = 4 * (2 + Img.hash.nb + Img.hash.nc)
    [] s.t = 1879048182 -> LinkTo(s, 11)
                           /\ s.s = 16 + (8 * Img.gnu.bs) + (4 * Img.gnu.nb) + (4 * Len(Img.gnu.c))
    [] s.t = 6 -> s.e = 16 /\ LinkTo(s, 3) /\ LinkName(s, ".dynstr")
    [] OTHER -> TRUE
HeaderClauses ==
  C(/\ Img.et = 2 /\ Img.mach = 62 /\ Img.ver = 1 /\ Img.idver = 1
    /\ Img.ehsize = 64 /\ Img.phes = 56 /\ Img.shes = 64
    /\ Img.phoff = 64 /\ Img.phn = Len(Img.phs) /\ Img.shn = Len(Img.secs)
    /\ Img.shoff + (64 * Img.shn) <= Img.size, "C13|ELF header")
  \cup C(Img.shstr + 1 \in DOMAIN Img.secs /\ Img.secs[Img.shstr + 1].t = 3, "C13|section names")
  \cup C(Img.secs[1].t = 0 /\ Img.secs[1].s = 0, "C13|first section isn't null")
  \cup {"C13|header of " \o Img.secs[i].n : i \in {j \in 2..Len(Img.secs) : ~HeaderOK(Img.secs[j])}}
  \cup C(\A n \in {".interp", ".dynsym", ".dynstr", ".dynamic", ".rela.dyn", ".rela.plt", ".got", ".got.plt", ".plt"} :
           Present(n) => Alloc(SecNamed(n)), "C13,C05|a table isn't loaded")
  \cup C(\A n \in {".dynamic", ".got", ".got.plt"} : Present(n) => Bit(SecNamed(n).f, F_WRITE), "C13,C05|a table isn't writable")
  \cup C(Present(".plt") => Bit(SecNamed(".plt").f, F_EXEC), "C13,C05|PLT isn't executable")

-----------------------------------------------------------------------------
(* C20 *)
EntryClauses ==
  C("_start" \in DOMAIN tab /\ IsDefined(tab["_start"]) => WNat(Img.entry) = Value(TargetOf("_start")), "C20|entry point")
  \cup UNION {LET a == "__" \o x \o "_array_start"
                  b == "__" \o x \o "_array_end"
                  seen(n) == n \in DOMAIN tab /\ ~IsDefined(tab[n]) /\ n \notin DOMAIN imps /\ SymtabAll(n) # {}
              IN C((seen(a) /\ seen(b) /\ SecOf("." \o x \o "_array") = 0) => LdValue(a) = LdValue(b), "C20|empty array")
              : x \in {"init", "fini"}}

(* Which inputs went into the program shows in the names it has.  What the   *)
(* world is about says which rule picks other inputs if they differ.         *)
FamilyTag == CASE World.fam = "search" -> "C15" [] World.fam = "script" -> "C17" [] World.fam = "cmd" -> "C16"
               [] World.fam = "needed" -> "C12" [] World.fam \in {"members", "links", "chain"} -> "C08" [] OTHER -> "-"
InputClauses ==
  LET seen == {Img.syms[j].n : j \in 2..Len(Img.syms)} \ {""}
      locals == {ObjectOf(units[k[1]]).syms[k[2]].n : k \in LocalKeys}
  IN IF FamilyTag = "-" THEN {}
     ELSE C(seen = DOMAIN tab \cup locals, FamilyTag \o "|other objects are in the program")
          \cup C(Without(NeededSeen(1, <<>>), LoaderName) = Without(NeededLibraries, LoaderName),
                 FamilyTag \o "|other libraries are in the program")

(* everything about a program that was written *)
ProgramClauses ==
  IF ~Img.ok THEN {"C13,C19|not a readable program: " \o Img.why}
  ELSE IF lay.missing # {} THEN {"C04|section is missing: " \o n : n \in lay.missing}
  ELSE FieldClauses \cup PlacementClauses \cup SegmentClauses \cup SymbolClauses \cup ImportClauses
       \cup HashClauses \cup NeededClauses \cup DynamicClauses \cup HeaderClauses \cup EntryClauses \cup InputClauses
=============================================================================
