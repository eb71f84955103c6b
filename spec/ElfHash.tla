------------------------------ MODULE ElfHash ------------------------------
(* The two symbol hash functions and the lookup that a dynamic loader does  *)
(* in the tables.  Names are sequences of byte values.  A 32-bit value is   *)
(* the pair <<high half, low half>>.                                        *)
EXTENDS Words, Bitwise

(* --- System V --- result below 2^28 *)
RECURSIVE SysvFrom(_, _, _)
SysvFrom(c, i, h) ==
  IF i > Len(c) THEN h
  ELSE LET top  == h \div 16777216                   \* bits 24..27
           low  == (h % 16777216) * 16 + c[i]        \* may carry into bit 28
           g    == (top + low \div 268435456) % 16   \* bits 28..31 of the sum
           rest == low % 268435456
           n    == (rest \div 16) % 16               \* bits 4..7
       IN SysvFrom(c, i + 1, rest - 16 * n + 16 * (n ^^ g))
SysvHash(c) == SysvFrom(c, 1, 0)

(* the table: nb buckets b, nc chain entries c; names: one per symbol index *)
RECURSIVE SysvWalk(_, _, _, _, _)
SysvWalk(t, names, name, i, fuel) ==
  IF i = 0 THEN 0
  ELSE IF fuel = 0 \/ i >= Len(names) \/ i + 1 > Len(t.c) THEN -1
  ELSE IF names[i + 1] = name THEN i
  ELSE SysvWalk(t, names, name, t.c[i + 1], fuel - 1)
SysvLookup(t, names, name) ==
  IF t.nb = 0 THEN 0
  ELSE LET k == (SysvHash(name) % t.nb) + 1
       IN IF k > Len(t.b) THEN -1 ELSE SysvWalk(t, names, name, t.b[k], t.nc + 1)

SysvShape(t, nsyms) ==
  /\ t.nb >= 1 /\ Len(t.b) = t.nb
  /\ t.nc = nsyms /\ Len(t.c) = t.nc
  /\ \A i \in 1..Len(t.b) : t.b[i] \in 0..(nsyms - 1)
  /\ \A i \in 1..Len(t.c) : t.c[i] \in 0..(nsyms - 1)

(* --- GNU --- *)
RECURSIVE GnuFrom(_, _, _)
GnuFrom(c, i, h) ==
  IF i > Len(c) THEN h
  ELSE LET lo == h[2] * 33 + c[i]
           hi == h[1] * 33 + lo \div Base
       IN GnuFrom(c, i + 1, <<hi % Base, lo % Base>>)
GnuHash(c) == GnuFrom(c, 1, <<0, 5381>>)

Mod32(h, m) == ((h[1] % m) * (Base % m) + (h[2] % m)) % m
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* (h >> s) mod 64 *)
Shift64(h, s) == IF s >= 16 THEN (h[1] \div Pow2(Min(s, 31) - 16)) % 64
                 ELSE ((h[1] % 64) * Pow2(16 - s) + h[2] \div Pow2(s)) % 64
BitOf(w, n) == (w[(n \div 16) + 1] \div Pow2(n % 16)) % 2

BloomHas(t, h) ==
  LET word == t.bloom[((h[1] * 1024 + h[2] \div 64) % t.bs) + 1]
  IN BitOf(word, h[2] % 64) = 1 /\ BitOf(word, Shift64(h, t.sh)) = 1

SameButLast(a, b) == a[1] = b[1] /\ a[2] \div 2 = b[2] \div 2

RECURSIVE GnuWalk(_, _, _, _, _)
GnuWalk(t, names, name, h, i) ==
  LET k == i - t.so + 1
  IN IF k < 1 \/ k > Len(t.c) \/ i >= Len(names) THEN -1
     ELSE IF SameButLast(t.c[k], h) /\ names[i + 1] = name THEN i
     ELSE IF t.c[k][2] % 2 = 1 THEN 0
     ELSE GnuWalk(t, names, name, h, i + 1)
GnuLookup(t, names, name) ==
  LET h == GnuHash(name)
      b == t.b[Mod32(h, t.nb) + 1]
  IN IF ~BloomHas(t, h) THEN 0
     ELSE IF b = 0 THEN 0
     ELSE GnuWalk(t, names, name, h, b)

GnuShape(t, nsyms) ==
  /\ t.nb >= 1 /\ Len(t.b) = t.nb
  /\ t.bs >= 1 /\ Len(t.bloom) = t.bs
  /\ \E p \in 0..16 : t.bs = Pow2(p)
  /\ t.sh \in 0..31
  /\ t.so \in 1..nsyms
  /\ Len(t.c) = nsyms - t.so
  /\ \A i \in 1..Len(t.b) : t.b[i] = 0 \/ t.b[i] \in t.so..(nsyms - 1)

-----------------------------------------------------------------------------
(* Construction of the tables as the documents describe them, for a         *)
(* sequence of names of which the first is the null symbol's.  The lookups  *)
(* are checked against it (MC_Hash).                                         *)
SysvMake(names, nb) ==
  LET n == Len(names)
      bucket(i) == SysvHash(names[i + 1]) % nb       \* of symbol i, from 1
      next(i) == LET S == {j \in 1..(i - 1) : bucket(j) = bucket(i)}
                 IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
      first(b) == LET S == {j \in 1..(n - 1) : bucket(j) = b}
                  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
  IN [nb |-> nb, nc |-> n, b |-> [k \in 1..nb |-> first(k - 1)], c |-> [k \in 1..n |-> IF k = 1 THEN 0 ELSE next(k - 1)]]

(* the names have to be sorted by bucket *)
GnuSorted(names, nb) == \A i \in 2..(Len(names) - 1) : Mod32(GnuHash(names[i]), nb) <= Mod32(GnuHash(names[i + 1]), nb)
SetBits(S) == [l \in 1..4 |-> LET T == {n \in S : n \div 16 = l - 1}
                                  RECURSIVE Sum(_)
                                  Sum(U) == IF U = {} THEN 0 ELSE LET n == CHOOSE n \in U : TRUE IN Pow2(n % 16) + Sum(U \ {n})
                              IN Sum(T)]
GnuMake(names, nb, bs, sh) ==
  LET n == Len(names)
      h == [i \in 1..n |-> GnuHash(names[i])]
      word(i) == (h[i][1] * 1024 + h[i][2] \div 64) % bs
      bits(w) == UNION {{h[i][2] % 64, Shift64(h[i], sh)} : i \in {j \in 2..n : word(j) = w}}
      in(b) == {i \in 2..n : Mod32(h[i], nb) = b}
      last(i) == i = n \/ Mod32(h[i], nb) # Mod32(h[i + 1], nb)
  IN [nb |-> nb, so |-> 1, bs |-> bs, sh |-> sh,
      bloom |-> [w \in 1..bs |-> SetBits(bits(w - 1))],
      b |-> [k \in 1..nb |-> IF in(k - 1) = {} THEN 0 ELSE (CHOOSE i \in in(k - 1) : \A j \in in(k - 1) : i <= j) - 1],
      c |-> [k \in 1..(n - 1) |-> LET x == h[k + 1] IN <<x[1], x[2] - (x[2] % 2) + (IF last(k + 1) THEN 1 ELSE 0)>>]]
=============================================================================
