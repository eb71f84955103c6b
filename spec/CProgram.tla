------------------------------ MODULE CProgram ------------------------------
(* The meaning of a program of several C files.  World.prog gives the files *)
(* as trees; which definition a name stands for in the program is what      *)
(* Link's machine has selected (tab, imps), so the output of the linked     *)
(* program follows from the rules of linking and from those of C.           *)
(*                                                                          *)
(* World.prog.u: files [f, m: where the object code is (member m of archive *)
(* f; 0: not in an archive), lib: shared library, vars, fns].               *)
(* A machine state of the program:                                          *)
(* [mem: object -> its ints, ptr: pointer variable -> [o, x], fp: function  *)
(*  pointer variable -> function, out, t, a: the function's variables,      *)
(*  at: registered with atexit, dead, code]; objects and functions are      *)
(* <<file, name>>.                                                          *)
EXTENDS Program

IsProgram == "u" \in DOMAIN World.prog
P == World.prog.u
Mod(x) == x % 1009
NoThing == <<0, "">>

SourceOf(f, m) == LET S == {i \in DOMAIN P : P[i].f = File(f).b /\ P[i].m = m}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
ProgUnits == [u \in DOMAIN units |-> SourceOf(units[u][1], units[u][2])]
LoadedLibs == {l \in DOMAIN libs : IsNeeded(l)}
LibSource(l) == SourceOf(libs[l].f, 0)

Vars(i) == {P[i].vars[k] : k \in DOMAIN P[i].vars}
Fns(i) == {P[i].fns[k] : k \in DOMAIN P[i].fns}
VarsNamed(i, n) == {v \in Vars(i) : v.n = n}
FnsNamed(i, n) == {f \in Fns(i) : f.n = n}
GlobalIn(i, n) == \E v \in Vars(i) \cup Fns(i) : v.n = n /\ v.sc # "s"
StaticIn(i, n) == \E v \in Vars(i) \cup Fns(i) : v.n = n /\ v.sc = "s"

(* another name of the same thing *)
Base0(i, n) == LET A == {v \in VarsNamed(i, n) : v.k = "alias"}
               IN IF A = {} THEN <<i, n>> ELSE <<i, (CHOOSE v \in A : TRUE).to>>

FirstLib(n) == LET S == {l \in LoadedLibs : LibSource(l) # 0 /\ GlobalIn(LibSource(l), n)}
               IN IF S = {} THEN NoThing
                  ELSE Base0(LibSource(CHOOSE l \in S : \A k \in S : l <= k), n)
InProgram(n) == n \in DOMAIN tab /\ IsDefined(tab[n]) /\ ProgUnits[tab[n].d[1]] # 0

(* what the name n means in file i *)
Meaning(i, n) ==
  IF StaticIn(i, n) THEN <<i, n>>
  ELSE IF InProgram(n) THEN Base0(ProgUnits[tab[n].d[1]], n)
  ELSE FirstLib(n)

-----------------------------------------------------------------------------
Active == ({ProgUnits[u] : u \in DOMAIN units} \cup {LibSource(l) : l \in LoadedLibs}) \ {0}
Things0(k) == UNION {{<<i, v.n>> : v \in {x \in Vars(i) : x.k = k}} : i \in Active}
Var(d) == CHOOSE v \in VarsNamed(d[1], d[2]) : TRUE

Initial0 ==
  [mem |-> [d \in Things0("int") |-> Var(d).init],
   ptr |-> [d \in Things0("ptr") |-> [o |-> Meaning(d[1], Var(d).to), x |-> Var(d).ix]],
   fp |-> [d \in Things0("fptr") |-> Meaning(d[1], Var(d).to)],
   out |-> <<>>, t |-> 0, a |-> 0, at |-> <<>>, dead |-> FALSE, code |-> 0]

B2N(b) == IF b THEN 1 ELSE 0
Get(st, d, x) == IF d \in DOMAIN st.mem THEN st.mem[d][x + 1] ELSE 0
Put(st, d, x, v) == IF d \in DOMAIN st.mem THEN [st EXCEPT !.mem[d][x + 1] = v] ELSE st
Pointer(st, d) == IF d \in DOMAIN st.ptr THEN st.ptr[d] ELSE [o |-> NoThing, x |-> 0]
FPointer(st, d) == IF d \in DOMAIN st.fp THEN st.fp[d] ELSE NoThing

RECURSIVE Eval(_, _, _)
Eval(st, i, e) ==
  CASE e[1] = "k" -> e[2]
    [] e[1] = "t" -> st.t
    [] e[1] = "a" -> st.a
    [] e[1] = "v" -> Get(st, Meaning(i, e[2]), e[3])
    [] e[1] = "+" -> Eval(st, i, e[2]) + Eval(st, i, e[3])
    [] e[1] = "*" -> Mod(Eval(st, i, e[2]) * Eval(st, i, e[3]))
    [] e[1] = "pv" -> LET p == Pointer(st, Meaning(i, e[2])) IN Get(st, p.o, p.x)
    [] e[1] = "feq" -> B2N(FPointer(st, Meaning(i, e[2])) = Meaning(i, e[3]))
    [] e[1] = "peq" -> B2N(Pointer(st, Meaning(i, e[2])) = [o |-> Meaning(i, e[3]), x |-> e[4]])
    [] e[1] = "al" -> 0
    [] e[1] = "def" -> B2N(Meaning(i, e[2]) # NoThing)

\* a text that the compiler found unused may be in no part of the program
String(d) == IF d = NoThing THEN "" ELSE (CHOOSE v \in VarsNamed(d[1], d[2]) : TRUE).str
Told(st, x) == [st EXCEPT !.out = Append(@, x)]

RECURSIVE Body(_, _, _, _), Do(_, _, _), Call(_, _, _)
Body(st, i, b, k) == IF k > Len(b) \/ st.dead THEN st ELSE Body(Do(st, i, b[k]), i, b, k + 1)
Call(st, d, v) ==   \* t is the result
  IF d = NoThing THEN [st EXCEPT !.dead = TRUE, !.code = -11]
  ELSE LET f == CHOOSE g \in FnsNamed(d[1], d[2]) : TRUE
           s == Body([st EXCEPT !.t = v, !.a = v], d[1], f.body, 1)
       IN [s EXCEPT !.a = st.a]
Called(st, d, v) == LET s == Call(st, d, v) IN [s EXCEPT !.t = Mod(st.t + s.t)]
Do(st, i, s) ==
  LET m(e) == Mod(Eval(st, i, e))
  IN CASE s[1] = "let" -> [st EXCEPT !.t = m(s[2])]
       [] s[1] = "call" ->
            LET d == Meaning(i, s[2])
            IN Called(st, IF d \in DOMAIN st.fp THEN st.fp[d] ELSE d, m(s[3]))
       [] s[1] = "callw" -> LET d == Meaning(i, s[2])
                            IN IF d = NoThing THEN [st EXCEPT !.t = Mod(@ + 7)] ELSE Called(st, d, m(s[3]))
       [] s[1] = "callt" ->
            LET d == Meaning(i, s[2])
                fs == Var(d).fs
            IN Called(st, Meaning(d[1], fs[1 + (Eval(st, i, s[3]) % s[4])]), m(s[5]))
       [] s[1] = "set" -> Put(st, Meaning(i, s[2]), s[3], m(s[4]))
       [] s[1] = "setp" -> LET p == Pointer(st, Meaning(i, s[2])) IN Put(st, p.o, p.x, m(s[3]))
       [] s[1] = "fset" -> LET d == Meaning(i, s[2]) IN IF d \in DOMAIN st.fp THEN [st EXCEPT !.fp[d] = Meaning(i, s[3])] ELSE st
       [] s[1] = "pset" -> LET d == Meaning(i, s[2])
                           IN IF d \in DOMAIN st.ptr THEN [st EXCEPT !.ptr[d] = [o |-> Meaning(i, s[3]), x |-> s[4]]] ELSE st
       [] s[1] \in {"print", "fprint"} -> Told(st, ToString(m(s[2])))
       [] s[1] = "puts" -> Told(st, String(Meaning(i, s[2])))
       [] s[1] = "lit" -> Told(st, s[2])
       [] s[1] = "len" -> [st EXCEPT !.t = Mod(@ + Len(String(Meaning(i, s[2]))))]
       [] s[1] = "atexit" -> [st EXCEPT !.at = <<<<i, s[2]>>>> \o @]
       [] s[1] = "exit" -> [st EXCEPT !.dead = TRUE, !.code = Eval(st, i, s[2]) % 100]
       [] s[1] = "if" -> Body(st, i, IF Eval(st, i, s[2]) % 2 = 1 THEN s[3] ELSE s[4], 1)
       [] s[1] = "sw" -> Body(st, i, s[3][1 + (Eval(st, i, s[2]) % Len(s[3]))], 1)

(* the functions of that kind, in the order of the files in the program *)
RECURSIVE OfKind(_, _, _)
OfKind(us, k, kind) ==
  IF k > Len(us) THEN <<>>
  ELSE (IF us[k] = 0 THEN <<>>
        ELSE LET S == {j \in DOMAIN P[us[k]].fns : P[us[k]].fns[j].k = kind}
             IN IF S = {} THEN <<>> ELSE <<<<us[k], P[us[k]].fns[CHOOSE j \in S : TRUE].n>>>>) \o OfKind(us, k + 1, kind)
LibUnits == [l \in DOMAIN libs |-> IF l \in LoadedLibs THEN LibSource(l) ELSE 0]
RECURSIVE Reversed(_)
Reversed(s) == IF s = <<>> THEN <<>> ELSE Append(Reversed(Tail(s)), Head(s))
RECURSIVE RunAll(_, _)
RunAll(st, ds) == IF ds = <<>> THEN st ELSE RunAll(Call([st EXCEPT !.dead = FALSE], Head(ds), 2), Tail(ds))

MainUnit == LET S == {i \in DOMAIN P : FnsNamed(i, "main") # {}} IN CHOOSE i \in S : TRUE
Finished ==   \* the state in which the program ends
  LET s0 == RunAll(Initial0, OfKind(LibUnits, 1, "constructor"))
      s1 == RunAll(s0, OfKind(ProgUnits, 1, "constructor"))
      s2 == Call([s1 EXCEPT !.dead = FALSE], <<MainUnit, "main">>, 1)
      code == IF s2.dead THEN s2.code ELSE s2.t % 100
      s3 == RunAll(s2, s2.at)
      s4 == RunAll(s3, Reversed(OfKind(ProgUnits, 1, "destructor")))
  IN [s4 EXCEPT !.code = code]

Expected == LET s == Finished IN <<ToString(s.code)>> \o s.out
MeaningClauses ==
  IF ~IsProgram THEN {}
  ELSE C(Obs.run = Expected, "C21|the program does something else than its sources say")
=============================================================================
