-------------------------------- MODULE Rules --------------------------------
(* The declarative rules that Link's machine has to obey: what the ELF      *)
(* documents say about the result, independent of how it is computed.       *)
EXTENDS Link

GlobalsOf(o) == {i \in 2..Len(o.syms) : o.syms[i].b # LOCAL_}
(* all occurrences <<unit, symbol>> of the name *)
Occurrences(n) == UNION {{<<u, i>> : i \in {j \in GlobalsOf(ObjectOf(units[u])) : ObjectOf(units[u]).syms[j].n = n}}
                         : u \in DOMAIN units}
At(k) == ObjectOf(units[k[1]]).syms[k[2]]
Definitions(n) == {k \in Occurrences(n) : At(k).x # 0}
Strong(n) == {k \in Definitions(n) : At(k).b \notin {WEAK, UNIQUE}}
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
First(K) == CHOOSE k \in K : \A j \in K : k = j \/ Earlier(k, j)
AllNames == UNION {{ObjectOf(units[u]).syms[i].n : i \in GlobalsOf(ObjectOf(units[u]))} : u \in DOMAIN units}
Suppliers(n) == IF \E k \in Occurrences(n) : At(k).o % 4 # 0 THEN {}     \* the name must not be found elsewhere
                ELSE {l \in DOMAIN libs : LibraryDef(l, n) # 0}

Linked == pc \in {"finish", "write", "ok", "either", "unsup"} \/ (pc = "fail" /\ err.k \in {"unresolved", "several", "reloc", "write"})

(* the definition that is selected: the strong one, else the first weak one *)
Binding ==
  Linked =>
    /\ DOMAIN tab = AllNames
    /\ \A n \in AllNames :
         IF Definitions(n) # {}
         THEN tab[n].d = First(IF Strong(n) # {} THEN Strong(n) ELSE Definitions(n))
         ELSE tab[n].d = <<0, 0>>

(* what no object defines comes from the first library that defines it *)
Importing ==
  Linked =>
    DOMAIN imps = {n \in AllNames : Definitions(n) = {} /\ Suppliers(n) # {}}
    /\ \A n \in DOMAIN imps : \A l \in Suppliers(n) : imps[n].l <= l

(* a clash is reported for two strong definitions and only then *)
Clashing ==
  /\ Linked => \A n \in AllNames : Cardinality(Strong(n)) <= 1
  /\ (pc = "fail" /\ err.k = "clash") => \E n \in err.n : Cardinality(Strong(n)) >= 2

(* unresolved: strongly referenced, defined nowhere *)
StronglyReferred(n) == \E k \in Occurrences(n) : At(k).x = 0 /\ At(k).b # WEAK
Resolving ==
  Linked => LET missing == {n \in AllNames : Definitions(n) = {} /\ Suppliers(n) = {} /\ StronglyReferred(n)} \ LinkerDefined
            IN (missing # {}) <=> (pc = "fail" /\ err.k \in {"unresolved", "several"}) \/ (pc = "finish" /\ missing # {})

(* members: each at most once; each was needed when it was linked; none is  *)
(* missing in the end                                                        *)
OpenBefore(n, u) ==   \* strongly open when unit u was linked
  /\ \E k \in Occurrences(n) : k[1] < u /\ At(k).x = 0 /\ At(k).b # WEAK
  /\ ~\E k \in Definitions(n) : k[1] < u
Members ==
  /\ \A u \in DOMAIN units : units[u][2] # 0 =>
       /\ \A v \in DOMAIN units : v # u => units[v] # units[u]
       /\ \E n \in AllNames : Defines(ObjectOf(units[u]), n) /\ OpenBefore(n, u) /\ Suppliers(n) = {}
  /\ Linked =>
       \A f \in {ars[i] : i \in DOMAIN ars} : File(f).a.ok =>
         \A m \in DOMAIN File(f).a.mem :
           (~\E u \in DOMAIN units : units[u] = <<f, m>>) =>
             ~\E n \in AllNames : /\ Defines(File(f).a.mem[m].o, n) /\ GoodObject(File(f).a.mem[m].o)
                                  /\ Definitions(n) = {} /\ Suppliers(n) = {} /\ StronglyReferred(n)

(* needed libraries: all that aren't given as needed, and all suppliers     *)
NeededRule ==
  Linked =>
    LET names == {NeededLibraries[i] : i \in DOMAIN NeededLibraries}
        must == {l \in DOMAIN libs : ~libs[l].asn}
                \cup {l \in DOMAIN libs : \E n \in AllNames : Definitions(n) = {} /\ Suppliers(n) # {}
                        /\ l = CHOOSE s \in Suppliers(n) : \A t \in Suppliers(n) : s <= t}
    IN /\ names = {NeededName(l) : l \in must}
       /\ Len(NeededLibraries) = Cardinality(names)

(* what the libraries find in the program: a definition that nobody hides,   *)
(* if a library that the program needs uses the name                         *)
ExportRule ==
  Linked =>
    \A n \in AllNames :
      n \in ExportedNames <=>
        /\ Definitions(n) # {}
        /\ \A k \in Occurrences(n) : At(k).o % 4 \in {0, 3}
        /\ \E l \in DOMAIN libs : /\ NeededName(l) \in {NeededLibraries[i] : i \in DOMAIN NeededLibraries}
                                  /\ ~libs[l].asn \/ \E m \in DOMAIN imps : imps[m].l = l
                                  /\ LibraryDef(l, n) # 0 \/ \E i \in DOMAIN File(libs[l].f).s.undefs : File(libs[l].f).s.undefs[i] = n

(* the state is well-formed *)
RunSteps == {"cmd", "search", "load", "fault", "libs", "archives", "again", "finish", "write"}
TypeOK ==
  /\ pc \in RunSteps \cup Final
  /\ (err # NoErr) <=> (pc \in {"fail", "fault"})
  /\ \A n \in DOMAIN tab :
       /\ n # "" /\ tab[n].b \in {"S", "W"} /\ tab[n].v \in 0..3
       /\ IsDefined(tab[n]) =>
            /\ tab[n].d[1] \in DOMAIN units
            /\ LET s == At(tab[n].d) IN s.n = n /\ s.b # LOCAL_ /\ s.x # 0
  /\ \A n \in DOMAIN imps :
       /\ n \in DOMAIN tab /\ ~IsDefined(tab[n]) /\ tab[n].v = 0
       /\ imps[n].l \in DOMAIN libs /\ LET d == LibDef(n) IN d.n = n /\ d.b # LOCAL_
  /\ \A u \in DOMAIN units : units[u][2] = 0 <=> u <= Len(objs)     \* members follow the objects
  /\ \A u \in DOMAIN units : units[u][2] = 0 => units[u][1] = objs[u]

(* how the state may change: what is linked stays linked, a strong          *)
(* definition stays selected, imports give way to definitions only          *)
Grows ==
  [][/\ Len(units') >= Len(units) /\ SubSeq(units', 1, Len(units)) = units
     /\ DOMAIN tab \subseteq DOMAIN tab'
     /\ \A n \in DOMAIN tab : IsDefined(tab[n]) => (IsDefined(tab'[n]) /\ (tab[n].b = "S" => tab'[n] = [tab[n] EXCEPT !.v = tab'[n].v]))
     /\ \A n \in DOMAIN imps : IF n \in DOMAIN imps' THEN imps'[n] = imps[n] ELSE IsDefined(tab'[n]) \/ tab'[n].v # 0
     /\ (pc # "cmd" => opt' = opt) /\ (pc \notin {"cmd", "search"} => <<objs, ars, libs>>' = <<objs, ars, libs>>)
     /\ pc \notin Final]_vars

Rules == TypeOK /\ Binding /\ Importing /\ Clashing /\ Resolving /\ Members /\ NeededRule /\ ExportRule
=============================================================================
