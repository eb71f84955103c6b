------------------------------ MODULE DldTrace ------------------------------
(* Replays recorded runs of the real linker on the specification.  Every    *)
(* line of the file $RUNS is a world and what was observed in it.  Link's   *)
(* machine is deterministic, so each run is one behaviour; when the machine *)
(* has stopped, the observation is compared with what the machine says, the *)
(* layout of the recorded program is derived, and its clauses are judged.   *)
EXTENDS CProgram, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.RUNS))

VARIABLES step,   \* "run", "image", "judged"
          bad     \* the clauses that don't hold

tvars == <<vars, lay, step, bad>>
NoLay == [ok |-> FALSE]

TraceInit ==
  /\ Init
  /\ lay = NoLay /\ step = "run" /\ bad = {}

Running ==
  /\ step = "run" /\ ~World.wild
  /\ Next
  /\ UNCHANGED <<lay, step, bad>>

-----------------------------------------------------------------------------
(* What the run did *)
ErrTokens == {Obs.err[i] : i \in DOMAIN Obs.err}
Made == {Obs.made[i] : i \in DOMAIN Obs.made}
Gone == {Obs.gone[i] : i \in DOMAIN Obs.gone}
Touched == Made \cup Gone
IsRo(d) == \E i \in DOMAIN World.rodirs : World.rodirs[i] = d
IsInput(i) == (\E u \in DOMAIN units : units[u][1] = i) \/ (\E l \in DOMAIN libs : libs[l].f = i)
              \/ Contains(objs, i) \/ Contains(ars, i) \/ err.k = "overwrite"

RECURSIVE Occurs(_, _)
Occurs(x, t) == Len(x) <= Len(t) /\ (StartsWith(t, x) \/ Occurs(x, SubSeq(t, 2, Len(t))))

InputNames == UNION {LET f == File(i)
                     IN CASE f.k = "obj" -> {f.o.syms[j].n : j \in DOMAIN f.o.syms}
                          [] f.k = "ar" -> UNION {{f.a.mem[m].o.syms[j].n : j \in DOMAIN f.a.mem[m].o.syms}
                                                  : m \in DOMAIN f.a.mem}
                          [] f.k = "so" -> {f.s.defs[j].n : j \in DOMAIN f.s.defs} \cup {f.s.undefs[j] : j \in DOMAIN f.s.undefs}
                          [] OTHER -> {} : i \in DOMAIN World.files}

FailureTag ==
  CASE err.k = "option" -> "C16" [] err.k = "missing" -> "C15,C16" [] err.k = "script" -> "C17,C22"
    [] err.k \in {"badinput", "unsupported", "badref", "section"} -> "C22" [] err.k = "clash" -> "C07"
    [] err.k \in {"reloc", "nonabi"} -> "C03" [] err.k = "unresolved" -> "C06" [] err.k \in {"write", "overwrite"} -> "C19" [] OTHER -> "C22"

(* whether a run may also be refused for the sake of a member that can't be read *)
DamagedMembers == \E i \in DOMAIN ars : \E m \in DOMAIN File(ars[i]).a.mem : ~File(ars[i]).a.mem[m].o.ok

(* the diagnostic of a failed run *)
DiagnosticClauses ==
  C(Obs.err # <<>>, "C19,C22," \o FailureTag \o "|no diagnostic")
  \cup (CASE err.k = "unresolved" -> C(DamagedMembers \/ ErrTokens \cap (InputNames \ {""}) = err.n, "C06|symbols named in the diagnostic")
          [] err.k = "clash" ->
               C(\A n \in err.n : n \in ErrTokens, "C07|symbol isn't named in the diagnostic")
               \cup C(\A f \in err.f : \E t \in ErrTokens : BaseName(t) = BaseName(f), "C07|definer isn't named in the diagnostic")
          [] err.k = "missing" ->
               C(\A n \in err.n : Occurs(n, Obs.msg), "C15,C16|missing input isn't named in the diagnostic")
          [] OTHER -> {})

Documented == {"-h", "--help", "-o", "-L", "-l", "--build-id", "-m", "--eh-frame-hdr", "-dynamic-linker",
               "--as-needed", "--no-as-needed", "--hash-style"}

RunClauses ==
  C(~Obs.tmo, "C22,C08,C17|the run doesn't end")
  \cup C(Obs.sig = 0, "C22,C19|the run is ended by signal " \o Str(Obs.sig))
  \cup C("panicked" \notin ErrTokens, "C22,C19," \o FailureTag \o "|the run panics")
  \cup C(Obs.same, "C18|repeated runs differ")
  \cup C(\A i \in DOMAIN World.files :
           LET b == File(i).b
           IN b \in Touched => /\ b = Canon(opt.out)
                               /\ ~IsInput(i),
         "C19|inputs were changed")
  \cup IF Obs.tmo THEN {}
       ELSE IF Obs.code # 0
            THEN C(Obs.err # <<>>, "C19,C22|no diagnostic")
                 \cup C(Gone \subseteq {Canon(opt.out)}, "C19|a failed run removes something")
                 (* what can't be removed may be emptied *)
                 \cup C(Made = {} \/ (Made = {Canon(opt.out)} /\ Obs.size = 0 /\ IsRo(Parent(Canon(opt.out)))),
                        "C19|a failed run leaves something behind")
            ELSE {}

OutcomeClauses ==
  IF Obs.tmo THEN {}
  ELSE IF pc \in {"ok", "help"} /\ Obs.code # 0 THEN {"*|refused"}
  ELSE IF pc = "fail" /\ Obs.code = 0 THEN {"*|accepted: " \o err.k}
  ELSE IF pc = "fail" THEN DiagnosticClauses
  ELSE IF pc = "help"
       THEN C(Documented \subseteq {Obs.out[i] : i \in DOMAIN Obs.out}, "C16|help is incomplete")
            \cup C(Made = {}, "C16,C19|help writes files")
  ELSE IF pc \in {"ok", "either", "unsup"} /\ Obs.code = 0
       THEN C(Made = {Canon(opt.out)}, "C16,C19|program isn't where it was asked for")
            \cup C(Obs.x, "C19|program isn't executable")
  ELSE {}

HasImage == pc \in {"ok", "either", "unsup"} /\ Obs.code = 0 /\ ~Obs.tmo

Ended == pc \in Final \/ World.wild

Observe ==
  /\ step = "run" /\ Ended
  /\ bad' = RunClauses \cup (IF World.wild THEN {} ELSE OutcomeClauses)
  /\ IF HasImage /\ ~World.wild
     THEN step' = "image" /\ lay' = IF Img.ok THEN Layout ELSE NoLay
     ELSE step' = "judged" /\ UNCHANGED lay
  /\ UNCHANGED vars

Judge ==
  /\ step = "image"
  /\ bad' = bad \cup ProgramClauses \cup MeaningClauses
  /\ step' = "judged"
  /\ lay' = NoLay
  /\ UNCHANGED vars

Report ==
  /\ step = "judged"
  /\ PrintT("RUN|" \o World.id \o "|" \o pc \o "|" \o err.k \o "|" \o ToJson(bad))
  /\ step' = "done"
  /\ UNCHANGED <<vars, lay, bad>>

TraceNext == Running \/ Observe \/ Judge \/ Report
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* nothing the machine does contradicts itself *)
Sane == /\ Cardinality({units[i] : i \in DOMAIN units}) = Len(units) \/ pc = "fail" \/ Len(objs) > Cardinality({objs[i] : i \in DOMAIN objs})
        /\ step = "judged" => (pc \in Final \/ World.wild)
=============================================================================
