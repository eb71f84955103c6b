-------------------------------- MODULE Link --------------------------------
(* One run of the linker as a state machine: the command line is read token *)
(* by token, the inputs are looked for (linker scripts are expanded in      *)
(* place), the objects are added one by one, then shared libraries and      *)
(* archives are consulted in rounds until nothing new is found, and the     *)
(* program is written - or the run stops with a diagnostic.                 *)
(*                                                                          *)
(* Worlds[w] is the environment of run w: the command line and what the     *)
(* files contain.  It is a constant, but TLC would evaluate a constant that *)
(* is read from a file again and again, so it is kept in TLC's register 1,  *)
(* which an ASSUME of the root module sets.                                 *)
EXTENDS Words, Script, FiniteSets, TLC

Worlds == TLCGet(1)

VARIABLES
  w,       \* which world
  pc,      \* what the linker is doing; "ok", "fail", "help", "any" are final
  toks,    \* command line tokens still to be read
  opt,     \* option values
  ins,     \* inputs still to be looked for
  scr,     \* scripts being read, innermost last
  objs,    \* object files, in order
  ars,     \* archives, in order
  libs,    \* shared libraries [f, asn, n], in order
  units,   \* what was linked: <<file, 0>> an object, <<file, m>> an archive member
  tab,     \* global names: [b: "S"|"W", d: <<0,0>> or <<unit, symbol>>]
  imps,    \* names taken from shared libraries: [l, d]
  rnd,     \* the names that were open when the round started
  li, ai, mi,  \* next library (0: one defined something), archive, member of the round
  err      \* why the link failed: [k, n: names, f: file names]

vars == <<w, pc, toks, opt, ins, scr, objs, ars, libs, units, tab, imps, rnd, li, ai, mi, err>>
link == <<units, tab, imps, rnd, li, ai, mi>>
found == <<objs, ars, libs, scr>>

World == Worlds[w]
File(f) == World.files[f]
NoErr == [k |-> "", n |-> {}, f |-> {}]
Err(k, names, files) == [k |-> k, n |-> names, f |-> files]
(* what else happens when only help was asked for isn't laid down *)
Stop(k, names, files) ==
  IF opt.help THEN pc' = "any" /\ UNCHANGED err ELSE pc' = "fail" /\ err' = Err(k, names, files)

-----------------------------------------------------------------------------
(* Vocabulary of object files *)
LOCAL_ == 0  WEAK == 2
T_OBJECT == 1  T_FUNC == 2  T_SECTION == 3  T_FILE == 4  T_TLS == 6  T_IFUNC == 10
ABS == 65521  COMMON == 65522
NOBITS == 8
SkippedTypes == {0, 2, 3, 4, 6, 9, 10, 11, 17}
Bit(v, b) == (v \div b) % 2 = 1
F_WRITE == 1  F_ALLOC == 2  F_EXEC == 4  F_TLS == 1024  F_COMPRESSED == 2048

GoodObject(o) == o.ok /\ o.cls = 2 /\ o.data = 1 /\ o.mach = 62 /\ o.et = 1
GoodLibrary(s) == s.ok /\ s.cls = 2 /\ s.data = 1 /\ s.mach = 62 /\ s.et = 3

ObjectOf(u) == IF u[2] = 0 THEN File(u[1]).o ELSE File(u[1]).a.mem[u[2]].o
Kept(o, s) == o.secs[s].t \notin SkippedTypes        \* s counts from 1

Defines(o, n) == \E i \in DOMAIN o.syms : LET s == o.syms[i] IN s.b # LOCAL_ /\ s.x # 0 /\ s.n = n

LinkerDefined == {"_GLOBAL_OFFSET_TABLE_", "__init_array_start", "__init_array_end",
                  "__fini_array_start", "__fini_array_end"}

-----------------------------------------------------------------------------
(* Command line *)
OptInit == [out |-> "./out", dynl |-> "/lib64/ld-linux-x86-64.so.2", hash |-> "both", help |-> FALSE,
            asn |-> FALSE, dirs |-> <<>>]

Init ==
  /\ w \in DOMAIN Worlds
  /\ pc = "cmd"
  /\ toks = Worlds[w].argv
  /\ opt = OptInit
  /\ ins = <<>> /\ scr = <<>> /\ objs = <<>> /\ ars = <<>> /\ libs = <<>>
  /\ units = <<>> /\ tab = <<>> /\ imps = <<>> /\ rnd = {}
  /\ li = 0 /\ ai = 0 /\ mi = 0
  /\ err = NoErr

RECURSIVE BaseFrom(_, _)
BaseFrom(p, i) == IF i = 0 THEN p ELSE IF SubSeq(p, i, i) = "/" THEN SubSeq(p, i + 1, Len(p)) ELSE BaseFrom(p, i - 1)
BaseName(p) == BaseFrom(p, Len(p))

WithArgument == {"-o", "-m", "-dynamic-linker", "-L", "-l", "-z", "--hash-style"}
Flags == {"--eh-frame-hdr", "--help", "-h", "--as-needed", "--no-as-needed", "--start-group", "--end-group"}
HashStyles == {"sysv", "gnu", "both"}
BuildIdOk(a) == a \in {"uuid", "sha1", "md5"} \/ StartsWith(a, "0x")
From(t, i) == SubSeq(t, i, Len(t))

AddInput(n, asn, lib) == ins' = Append(ins, [k |-> "in", n |-> n, asn |-> asn, lib |-> lib])

CmdKeep == UNCHANGED <<w, found, link>>

CmdOption ==
  /\ pc = "cmd" /\ toks # <<>> /\ Head(toks) \in WithArgument /\ Len(toks) >= 2
  /\ LET t == Head(toks)
         a == toks[2]
     IN CASE t = "-m" /\ a # "elf_x86_64" -> Stop("option", {}, {}) /\ UNCHANGED <<opt, ins>>
          [] t = "-dynamic-linker" /\ BaseName(a) \in {"", ".", ".."} -> pc' = "any" /\ UNCHANGED <<opt, ins, err>>
          [] t = "--hash-style" /\ a \notin HashStyles -> Stop("option", {}, {}) /\ UNCHANGED <<opt, ins>>
          [] OTHER ->
               /\ UNCHANGED <<pc, err>>
               /\ opt' = CASE t = "-o" -> [opt EXCEPT !.out = a]
                           [] t = "-dynamic-linker" -> [opt EXCEPT !.dynl = a]
                           [] t = "-L" -> [opt EXCEPT !.dirs = Append(@, a)]
                           [] t = "--hash-style" -> [opt EXCEPT !.hash = a]
                           [] OTHER -> opt
               /\ IF t = "-l" THEN AddInput(a, opt.asn, TRUE) ELSE UNCHANGED ins
  /\ toks' = From(toks, 3)
  /\ CmdKeep

CmdMissingArgument ==
  /\ pc = "cmd" /\ Len(toks) = 1 /\ Head(toks) \in WithArgument
  /\ Stop("option", {}, {})
  /\ UNCHANGED <<toks, opt, ins>> /\ CmdKeep

(* the style is optional *)
CmdBuildId ==
  /\ pc = "cmd" /\ toks # <<>> /\ Head(toks) = "--build-id"
  /\ IF Len(toks) >= 2 /\ ~StartsWith(toks[2], "-")
     THEN /\ toks' = From(toks, 3)
          /\ IF BuildIdOk(toks[2]) THEN UNCHANGED <<pc, err>> ELSE Stop("option", {}, {})
     ELSE toks' = Tail(toks) /\ UNCHANGED <<pc, err>>
  /\ UNCHANGED <<opt, ins>> /\ CmdKeep

CmdFlag ==
  /\ pc = "cmd" /\ toks # <<>> /\ Head(toks) \in Flags
  /\ LET t == Head(toks)
     IN opt' = CASE t \in {"-h", "--help"} -> [opt EXCEPT !.help = TRUE]
                 [] t = "--as-needed" -> [opt EXCEPT !.asn = TRUE]
                 [] t = "--no-as-needed" -> [opt EXCEPT !.asn = FALSE]
                 [] OTHER -> opt
  /\ toks' = Tail(toks)
  /\ UNCHANGED <<pc, err, ins>> /\ CmdKeep

(* options whose argument is part of the token, and inputs *)
CmdWord ==
  /\ pc = "cmd" /\ toks # <<>>
  /\ Head(toks) \notin WithArgument \cup Flags \cup {"--build-id"}
  /\ LET t == Head(toks)
     IN CASE StartsWith(t, "-L") -> opt' = [opt EXCEPT !.dirs = Append(@, From(t, 3))] /\ UNCHANGED <<pc, err, ins>>
          [] StartsWith(t, "-l") -> AddInput(From(t, 3), opt.asn, TRUE) /\ UNCHANGED <<pc, err, opt>>
          [] StartsWith(t, "--hash-style=") ->
               IF From(t, 14) \in HashStyles
               THEN opt' = [opt EXCEPT !.hash = From(t, 14)] /\ UNCHANGED <<pc, err, ins>>
               ELSE Stop("option", {}, {}) /\ UNCHANGED <<opt, ins>>
          [] OTHER -> AddInput(t, opt.asn, FALSE) /\ UNCHANGED <<pc, err, opt>>
  /\ toks' = Tail(toks)
  /\ CmdKeep

CmdEnd ==
  /\ pc = "cmd" /\ toks = <<>>
  /\ pc' = "search"
  /\ UNCHANGED <<w, toks, opt, ins, found, link, err>>

-----------------------------------------------------------------------------
(* Looking for the inputs *)
RECURSIVE UpTo(_, _)
UpTo(p, i) ==   \* the position of the first slash from i on, or one past the end
  IF i > Len(p) \/ SubSeq(p, i, i) = "/" THEN i ELSE UpTo(p, i + 1)
RECURSIVE Parent(_)
Parent(d) == IF d = "" THEN "" ELSE IF SubSeq(d, Len(d), Len(d)) = "/" THEN SubSeq(d, 1, Len(d) - 1)
             ELSE Parent(SubSeq(d, 1, Len(d) - 1))

(* symbolic links lead to canonical paths *)
Links == IF "links" \in DOMAIN World THEN World.links ELSE <<>>
Followed(c) == LET S == {i \in DOMAIN Links : Links[i].b = c}
               IN IF S = {} THEN c ELSE Links[CHOOSE i \in S : TRUE].t

(* the canonical path that p leads to, seen from the directory at; "?" if   *)
(* it leads through something that isn't a directory                        *)
RECURSIVE Walk(_, _)
Walk(at, p) ==
  IF p = "" THEN at
  ELSE IF at \notin {World.dirs[i] : i \in DOMAIN World.dirs} THEN "?"
  ELSE LET k == UpTo(p, 1)
           c == SubSeq(p, 1, k - 1)
           rest == SubSeq(p, k + 1, Len(p))
       IN Walk(CASE c \in {"", "."} -> at
                 [] c = ".." -> Parent(at)
                 [] OTHER -> Followed(at \o "/" \o c), rest)
Canon(p) == IF p = "" THEN "?" ELSE Walk(IF StartsWith(p, "/") THEN "" ELSE World.cwd, p)
IsDir(c) == \E i \in DOMAIN World.dirs : World.dirs[i] = c

(* the file that the path p names, or 0 *)
Stat(p) == LET c == Canon(p)
               S == {i \in DOMAIN World.files : World.files[i].b = c}
           IN IF S = {} \/ SubSeq(p, Len(p), Len(p)) = "/" THEN 0 ELSE CHOOSE i \in S : TRUE

Join(dir, n) == IF StartsWith(n, "/") \/ dir = "" THEN n
                ELSE IF SubSeq(dir, Len(dir), Len(dir)) = "/" THEN dir \o n
                ELSE dir \o "/" \o n

FirstIn(n) ==   \* the path of that name in the first directory that has it
  LET hits == {i \in DOMAIN opt.dirs : Stat(Join(opt.dirs[i], n)) # 0}
  IN IF hits = {} THEN "" ELSE Join(opt.dirs[CHOOSE i \in hits : \A j \in hits : i <= j], n)

Resolve(in) ==   \* the path of the input, or ""
  IF in.lib
  THEN LET so == FirstIn("lib" \o in.n \o ".so")
       IN IF so # "" THEN so ELSE FirstIn("lib" \o in.n \o ".a")
  ELSE IF Stat(in.n) # 0 THEN in.n ELSE FirstIn(in.n)

Contains(seq, x) == \E i \in DOMAIN seq : seq[i] = x

FindInput ==
  /\ pc = "search" /\ ins # <<>> /\ Head(ins).k = "in"
  /\ LET in == Head(ins)
         p  == Resolve(in)
         f  == Stat(p)
     IN IF p = ""
        THEN Stop("missing", {in.n}, {}) /\ UNCHANGED <<found, ins>>
        ELSE IF f = Stat(opt.out) THEN Stop("overwrite", {}, {File(f).b}) /\ UNCHANGED <<found, ins>>
        ELSE CASE "hidden" \in DOMAIN File(f) -> Stop("badinput", {}, {File(f).b}) /\ UNCHANGED <<found, ins>>
               [] File(f).k = "obj" ->
                    objs' = Append(objs, f) /\ ins' = Tail(ins) /\ UNCHANGED <<ars, libs, scr, pc, err>>
               [] File(f).k = "ar" ->
                    /\ ars' = IF Contains(ars, f) THEN ars ELSE Append(ars, f)
                    /\ ins' = Tail(ins) /\ UNCHANGED <<objs, libs, scr, pc, err>>
               [] File(f).k = "so" ->
                    /\ libs' = Append(libs, [f |-> f, asn |-> in.asn, n |-> BaseName(p)])
                    /\ ins' = Tail(ins) /\ UNCHANGED <<objs, ars, scr, pc, err>>
               [] File(f).k = "bin" -> Stop("script", {}, {File(f).b}) /\ UNCHANGED <<found, ins>>
               [] OTHER ->
                    IF Contains(scr, f) THEN Stop("script", {}, {File(f).b}) /\ UNCHANGED <<found, ins>>
                    ELSE LET s == ReadScript(File(f).x)
                         IN CASE s.r = "bad" -> Stop("script", {}, {File(f).b}) /\ UNCHANGED <<found, ins>>
                              [] s.r = "any" -> pc' = "any" /\ UNCHANGED <<err, found, ins>>
                              [] OTHER ->
                                   /\ scr' = Append(scr, f)
                                   /\ ins' = [i \in DOMAIN s.out |->
                                                LET x == s.out[i].n
                                                    lib == StartsWith(x, "-l")
                                                IN [k |-> "in", n |-> IF lib THEN From(x, 3) ELSE x,
                                                    asn |-> s.out[i].asn \/ in.asn, lib |-> lib]]
                                             \o <<[k |-> "pop"]>> \o Tail(ins)
                                   /\ UNCHANGED <<objs, ars, libs, pc, err>>
  /\ UNCHANGED <<w, toks, opt, link>>

EndOfScript ==
  /\ pc = "search" /\ ins # <<>> /\ Head(ins).k = "pop"
  /\ ins' = Tail(ins)
  /\ scr' = SubSeq(scr, 1, Len(scr) - 1)
  /\ UNCHANGED <<w, pc, toks, opt, objs, ars, libs, link, err>>

SearchEnd ==
  /\ pc = "search" /\ ins = <<>>
  /\ pc' = IF opt.help THEN "help" ELSE "load"
  /\ UNCHANGED <<w, toks, opt, ins, found, link, err>>

-----------------------------------------------------------------------------
(* Symbols *)
(* of definitions that are to be unique in the process (of C++) there may be several *)
UNIQUE == 10
Strength(s) == IF s.b = WEAK \/ (s.b = UNIQUE /\ s.x # 0) THEN "W" ELSE "S"
IsDefined(e) == e.d # <<0, 0>>

(* one more occurrence s (symbol i of unit u) of a global name *)
Merge(e, s, u, i) ==
  IF s.x = 0
  THEN IF ~IsDefined(e) /\ Strength(s) = "S" THEN [e EXCEPT !.b = "S"] ELSE e
  ELSE IF ~IsDefined(e) \/ (e.b = "W" /\ Strength(s) = "S")
       THEN [e EXCEPT !.b = Strength(s), !.d = <<u, i>>]
       ELSE e
(* the most constraining visibility: internal, hidden, protected, default    *)
Visibility(s) == s.o % 4
Narrower(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE Min(a, b)
Merged(e, s, u, i) == [Merge(e, s, u, i) EXCEPT !.v = Narrower(e.v, Visibility(s))]
Clash(e, s) == IsDefined(e) /\ e.b = "S" /\ s.x # 0 /\ Strength(s) = "S"

(* adds the symbols of o from i on; t: [tab, imps, err] *)
RECURSIVE AddSymbols(_, _, _, _)
AddSymbols(o, u, i, t) ==
  IF i > Len(o.syms) THEN t
  ELSE LET s == o.syms[i]
       IN IF s.x = COMMON THEN [t EXCEPT !.err = Err("unsupported", {s.n}, {})]
          ELSE IF s.x # ABS /\ s.x >= Len(o.secs) THEN [t EXCEPT !.err = Err("badref", {}, {})]
          ELSE IF s.t = T_IFUNC /\ s.x # 0 THEN [t EXCEPT !.err = Err("unsupported", {s.n}, {})]
          ELSE IF s.b = LOCAL_ THEN AddSymbols(o, u, i + 1, t)
          ELSE IF s.n = "" THEN [t EXCEPT !.err = Err("badref", {}, {})]
          ELSE IF s.n \notin DOMAIN t.tab
               THEN AddSymbols(o, u, i + 1,
                      [t EXCEPT !.tab = (s.n :> [b |-> Strength(s), v |-> Visibility(s),
                                          d |-> IF s.x = 0 THEN <<0, 0>> ELSE <<u, i>>]) @@ @])
          ELSE LET e == t.tab[s.n]
               IN IF Clash(e, s)
                  THEN [t EXCEPT !.err = Err("clash", {s.n}, {File(units'[e.d[1]][1]).b})]
                  ELSE LET e2 == Merged(e, s, u, i)
                       IN AddSymbols(o, u, i + 1,
                            [t EXCEPT !.tab[s.n] = e2,
                                      !.imps = IF (IsDefined(e2) \/ e2.v # 0) /\ s.n \in DOMAIN @
                                               THEN [n \in DOMAIN @ \ {s.n} |-> @[n]] ELSE @])

NonAbi == {12, 13, 14, 15}
RelocationsRefer(o) ==   \* to sections that exist, and to symbols that exist in sections that are kept
  \A i \in DOMAIN o.rels : LET r == o.rels[i]
                           IN /\ r.s \in 0..(Len(o.secs) - 1)
                              /\ Kept(o, r.s + 1) => r.y \in 0..(Len(o.syms) - 1)
RelocationsConform(o) ==
  \A i \in DOMAIN o.rels : LET r == o.rels[i]
                           IN (r.s \in 0..(Len(o.secs) - 1) /\ Kept(o, r.s + 1)) => r.t \notin NonAbi

(* sections that can become part of a program: none is named like one that  *)
(* the linker makes, alignments are powers of two, none is compressed        *)
OwnSections == {"", ".shstrtab", ".strtab", ".dynstr", ".interp", ".got", ".got.plt", ".plt", ".symtab", ".dynsym",
                ".dynamic", ".rela.dyn", ".rela.plt", ".copyrel"}
               \cup (IF opt.hash \in {"sysv", "both"} THEN {".hash"} ELSE {})
               \cup (IF opt.hash \in {"gnu", "both"} THEN {".gnu.hash"} ELSE {})
Alignments == {0} \cup {2 ^ i : i \in 0..30}
SectionsFit(o) ==
  \A i \in 2..Len(o.secs) :
    Kept(o, i) => /\ o.secs[i].n \notin OwnSections /\ o.secs[i].a \in Alignments /\ o.secs[i].s >= 0
                  /\ ~Bit(o.secs[i].f, F_COMPRESSED)
(* at most what the sections of o add to the size of the program (or 2^30) *)
Huge == 2 ^ 30
RECURSIVE Extent(_, _, _)
Extent(o, i, n) ==
  IF i > Len(o.secs) \/ n >= Huge THEN Min(n, Huge)
  ELSE LET x == o.secs[i]
       IN Extent(o, i + 1, IF ~Kept(o, i) THEN n
                           ELSE IF Max(x.s, x.a) >= Huge THEN Huge
                           ELSE IF Max(x.s, x.a) >= Huge \div 4 THEN Min(n + Max(x.s, x.a), Huge)
                           ELSE n + x.s + 2 * x.a + 2 * Page)
RECURSIVE Extents(_, _)
Extents(us, n) == IF us = <<>> THEN n ELSE Extents(Tail(us), Min(n + Extent(ObjectOf(Head(us)), 2, 0), Huge))

Link1(u) ==   \* links the unit u = <<file, member>>
  /\ units' = Append(units, u)
  /\ LET o == ObjectOf(u)
         t == AddSymbols(o, Len(units) + 1, 1, [tab |-> tab, imps |-> imps, err |-> NoErr])
         e == IF ~SectionsFit(o) THEN Err("section", {}, {})
              ELSE IF t.err # NoErr THEN t.err
              ELSE IF ~RelocationsRefer(o) THEN Err("badref", {}, {})
              ELSE IF ~RelocationsConform(o) THEN Err("nonabi", {}, {})
              ELSE NoErr
     IN tab' = t.tab /\ imps' = t.imps /\ err' = e

LaterFault == \E i \in Len(units) + 2..Len(objs) :
                LET o == File(objs[i]).o IN ~GoodObject(o) \/ ~SectionsFit(o)
(* which of several faults is told isn't laid down *)
Faults == pc = "fault" /\ Stop("faults", {}, {}) /\ UNCHANGED <<w, toks, opt, ins, found, link>>

AddObject ==
  /\ pc = "load" /\ Len(units) < Len(objs)
  /\ LET u == <<objs[Len(units) + 1], 0>>
     IN IF ~GoodObject(ObjectOf(u))
        THEN Stop("badinput", {}, {File(u[1]).b}) /\ UNCHANGED <<units, tab, imps>>
        ELSE Link1(u) /\ pc' = IF err' = NoErr THEN "load" ELSE IF LaterFault THEN "fault" ELSE "fail"
  /\ UNCHANGED <<w, toks, opt, ins, found, rnd, li, ai, mi>>

Open == {n \in DOMAIN tab : ~IsDefined(tab[n]) /\ n \notin DOMAIN imps}
StrongOpen == {n \in Open : tab[n].b = "S"}

StartRound ==
  /\ \/ pc = "load" /\ Len(units) = Len(objs)
     \/ pc = "again"
  /\ pc' = "libs"
  /\ rnd' = Open /\ li' = 1 /\ ai' = 1 /\ mi' = 1
  /\ UNCHANGED <<w, toks, opt, ins, found, units, tab, imps, err>>

LibraryDef(l, n) ==   \* which definition of the library has the name, or 0
  LET ds == File(libs[l].f).s.defs
      hits == {i \in DOMAIN ds : ds[i].n = n /\ ds[i].b # LOCAL_}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

(* a definition whose name lies outside the table of names might be any *)
Unreadable(s) == \E i \in DOMAIN s.defs : s.defs[i].n = "?" /\ s.defs[i].b # LOCAL_
Sought == {n \in rnd : n \notin DOMAIN imps /\ tab[n].v = 0}
ConsultLibrary ==
  /\ pc = "libs" /\ li <= Len(libs)
  /\ IF ~GoodLibrary(File(libs[li].f).s) \/ (Unreadable(File(libs[li].f).s) /\ Sought # {})
     THEN Stop("badinput", {}, {File(libs[li].f).b}) /\ UNCHANGED <<imps, li>>
     ELSE LET got == {n \in Sought : LibraryDef(li, n) # 0}
          IN /\ imps' = [n \in got |-> [l |-> li, d |-> LibraryDef(li, n)]] @@ imps
             /\ li' = li + 1
             /\ UNCHANGED <<pc, err>>
  /\ UNCHANGED <<w, toks, opt, ins, found, units, tab, rnd, ai, mi>>

LibrariesDone ==
  /\ pc = "libs" /\ li > Len(libs)
  /\ pc' = "archives"
  /\ rnd' = rnd \ DOMAIN imps
  /\ li' = IF rnd \cap DOMAIN imps = {} THEN li ELSE 0
  /\ UNCHANGED <<w, toks, opt, ins, found, units, tab, imps, ai, mi, err>>

(* what archives may define: open since the start of the round, and strong; *)
(* what a library has defined may be open again when a member that refers   *)
(* to it with a visibility comes in, but then in the next round only        *)
Wanted == {n \in rnd : n \in StrongOpen}
Needed(f, m) == LET o == File(f).a.mem[m].o
                IN GoodObject(o) /\ \E n \in Wanted : Defines(o, n)
NextNeeded == {m \in mi..Len(File(ars[ai]).a.mem) : Needed(ars[ai], m)}

LinkMember ==
  /\ pc = "archives" /\ ai <= Len(ars) /\ File(ars[ai]).a.ok /\ NextNeeded # {}
  /\ LET m == CHOOSE x \in NextNeeded : \A y \in NextNeeded : x <= y
     IN Link1(<<ars[ai], m>>) /\ mi' = m + 1
  /\ pc' = IF err' = NoErr THEN pc ELSE "fail"
  /\ UNCHANGED <<w, toks, opt, ins, found, rnd, li, ai>>

ArchiveDone ==
  /\ pc = "archives" /\ ai <= Len(ars) /\ File(ars[ai]).a.ok /\ NextNeeded = {}
  /\ ai' = ai + 1 /\ mi' = 1
  /\ UNCHANGED <<w, pc, toks, opt, ins, found, units, tab, imps, rnd, li, err>>

BadArchive ==
  /\ pc = "archives" /\ ai <= Len(ars) /\ ~File(ars[ai]).a.ok
  /\ Stop("badinput", {}, {File(ars[ai]).b})
  /\ UNCHANGED <<w, toks, opt, ins, found, link>>

EndRound ==
  /\ pc = "archives" /\ ai > Len(ars)
  /\ pc' = IF rnd \subseteq Open /\ li # 0 THEN "finish" ELSE "again"
  /\ UNCHANGED <<w, toks, opt, ins, found, link, err>>

-----------------------------------------------------------------------------
(* What a relocation refers to:                                             *)
(* [k |-> "sec", u, s, v] the address of section s of unit u plus v;        *)
(* "abs" the value v; "imp" the import n; "ld" a linker-defined symbol n;   *)
(* "zero" nothing.                                                          *)
TargetOf(n) ==
  LET e == tab[n]
  IN IF IsDefined(e)
     THEN LET s == ObjectOf(units[e.d[1]]).syms[e.d[2]]
          IN IF s.x = ABS THEN [k |-> "abs", v |-> s.v, t |-> s.t]
             ELSE [k |-> "sec", u |-> e.d[1], s |-> s.x + 1, v |-> s.v, t |-> s.t]
     ELSE IF n \in DOMAIN imps
          THEN [k |-> "imp", n |-> n, t |-> File(libs[imps[n].l].f).s.defs[imps[n].d].t]
     ELSE IF n \in LinkerDefined THEN [k |-> "ld", n |-> n, t |-> 0]
     ELSE [k |-> "zero", t |-> 0]
Target(u, y) ==   \* symbol y, from 0, of unit u
  LET s == ObjectOf(units[u]).syms[y + 1]
  IN IF y = 0 THEN [k |-> "zero", t |-> 0]
     ELSE IF s.b # LOCAL_ THEN TargetOf(s.n)
     ELSE IF s.x = 0 THEN [k |-> "zero", t |-> 0]
     ELSE IF s.x = ABS THEN [k |-> "abs", v |-> s.v, t |-> s.t]
     ELSE [k |-> "sec", u |-> u, s |-> s.x + 1, v |-> s.v, t |-> s.t]

(* an object that its library never finds elsewhere can't be copied *)
LibOf(n) == File(libs[imps[n].l].f).s
LibDef(n) == LibOf(n).defs[imps[n].d]
Protected(n) == LibDef(n).t = T_OBJECT /\ LibDef(n).o % 4 = 3

(* Whether relocations can be applied is known before the layout, except    *)
(* where the distance of two places decides.                                *)
Supported == {0, 1, 2, 3, 4, 9, 10, 11, 19, 22, 23, 41, 42}
LowAddr == <<0, 32, 0, 0>>       \* 0x200000
(* programs stay below this address; unknown: 0 *)
HighAddr == LET n == Extents(units, 0)
            IN IF n < 2 ^ 27 THEN <<0, 4096, 0, 0>> ELSE IF n < 2 ^ 29 THEN <<0, 20480, 0, 0>> ELSE W0
SpanOf(t, high) ==   \* lowest and highest possible value of S
  CASE t.k = "abs" -> <<t.v, t.v>>
    [] t.k = "zero" -> <<W0, W0>>
    [] t.k = "ld" -> <<W0, high>>
    [] t.k = "sec" /\ ~Bit(ObjectOf(units[t.u]).secs[t.s].f, F_ALLOC) -> <<W0, high>>
    [] OTHER -> <<LowAddr, high>>
Both(fits(_), lo, hi) == IF fits(lo) /\ fits(hi) THEN "ok" ELSE IF ~fits(lo) /\ ~fits(hi) THEN "fail" ELSE "any"
TlsTypes == {16, 17, 18, 19, 20, 21, 22, 23}
RelocOutcome(u, r, high) ==
  LET t == Target(u, r.y)
      lo == WAdd(SpanOf(t, high)[1], r.d)
      hi == WAdd(SpanOf(t, high)[2], r.d)
      (* the distance of two places in the program, plus the addend *)
      dist == Both(FitsS32, WSub(r.d, high), WAdd(r.d, high))
      sec == ObjectOf(units[u]).secs[r.s + 1]
      width == IF r.t \in {1, 16, 17, 18, 24, 25} THEN 8 ELSE 4
  IN CASE r.t = 0 -> "ok"
       [] r.o < 0 \/ sec.t = NOBITS \/ r.o + width > sec.s -> "fail"     \* outside the section
       [] (r.t = 41 /\ r.o < 2) \/ (r.t = 42 /\ r.o < 3) -> "odd"
       [] t.t = T_TLS /\ r.t \notin TlsTypes -> "odd"       \* what that means isn't laid down
       [] r.t \notin Supported -> "unsup"
       [] (IF t.k = "imp" THEN Protected(t.n) ELSE FALSE) /\ r.t \notin {3, 9, 41, 42} -> IF r.t = 4 THEN "odd" ELSE "fail"
       [] r.t = 10 -> Both(FitsU32, lo, hi)
       [] r.t = 11 -> Both(FitsS32, lo, hi)
       [] r.t = 2 \/ (r.t = 4 /\ t.k # "imp") -> Both(FitsS32, WSub(lo, high), WSub(hi, LowAddr))
       [] r.t \in {3, 4, 9} -> dist
       [] r.t = 23 -> IF t.k = "imp" THEN "fail" ELSE IF t.k = "sec" /\ t.t = T_TLS THEN dist ELSE "any"
       [] r.t \in {19, 22} -> IF t.t = T_TLS THEN dist ELSE "any"
       [] r.t \in {41, 42} ->
            IF t.k = "imp" THEN dist
            ELSE IF dist = "ok" /\ Both(FitsS32, WSub(lo, high), WSub(hi, LowAddr)) = "ok" THEN "ok" ELSE "any"
       [] OTHER -> "ok"
Outcomes(high) ==
  UNION {LET o == ObjectOf(units[u])
         IN {RelocOutcome(u, o.rels[i], high) : i \in {j \in DOMAIN o.rels :
               o.rels[j].s < Len(o.secs) /\ Kept(o, o.rels[j].s + 1)}} : u \in DOMAIN units}

Unresolved == StrongOpen \ LinkerDefined

Finish ==
  /\ pc = "finish"
  /\ LET high == HighAddr
         O == Outcomes(high)
     IN IF Unresolved # {} /\ O \subseteq {"ok"} THEN Stop("unresolved", Unresolved, {})
        ELSE IF Unresolved # {} THEN Stop("several", {}, {})    \* which fault is told isn't laid down
        ELSE IF "odd" \in O \/ high = W0 THEN pc' = "any" /\ UNCHANGED err
        ELSE IF "fail" \in O THEN Stop("reloc", {}, {})
        ELSE IF "any" \in O THEN pc' = "either" /\ UNCHANGED err
        ELSE IF "unsup" \in O THEN pc' = "unsup" /\ UNCHANGED err
        ELSE pc' = "write" /\ UNCHANGED err
  /\ UNCHANGED <<w, toks, opt, ins, found, link>>

(* writing fails only for reasons that lie outside the linker               *)
(* files that can't be written to may be replaced or not                    *)
Writable(p) ==
  LET c == Canon(p)
      old == {i \in DOMAIN World.files : World.files[i].b = c}
      fixed == \E i \in DOMAIN World.rodirs : World.rodirs[i] = Parent(c)
      locked == \E i \in old : "locked" \in DOMAIN File(i)
  IN IF c = "?" \/ IsDir(c) \/ ~IsDir(Parent(c)) \/ SubSeq(p, Len(p), Len(p)) = "/" THEN "no"
     ELSE IF fixed THEN IF old = {} \/ locked THEN "no" ELSE "perhaps"
     ELSE IF locked THEN "perhaps" ELSE "yes"
Write ==
  /\ pc = "write"
  /\ LET x == IF World.fault = "" THEN Writable(opt.out) ELSE "no"
     IN CASE x = "yes" -> pc' = "ok" /\ UNCHANGED err
          [] x = "perhaps" -> pc' = "either" /\ UNCHANGED err
          [] OTHER -> Stop("write", {}, {})
  /\ UNCHANGED <<w, toks, opt, ins, found, link>>

Next == \/ CmdOption \/ CmdMissingArgument \/ CmdBuildId \/ CmdFlag \/ CmdWord \/ CmdEnd
        \/ FindInput \/ EndOfScript \/ SearchEnd
        \/ AddObject \/ Faults \/ StartRound \/ ConsultLibrary \/ LibrariesDone
        \/ LinkMember \/ ArchiveDone \/ BadArchive \/ EndRound
        \/ Finish \/ Write

Final == {"ok", "fail", "help", "any", "either", "unsup"}
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc \in Final)

-----------------------------------------------------------------------------
(* The needed libraries of the result *)
NeededName(l) == LET s == File(libs[l].f).s IN IF s.soname # "" THEN s.soname ELSE libs[l].n
Supplies(l) == \E n \in DOMAIN imps : imps[n].l = l
IsNeeded(l) == ~libs[l].asn \/ Supplies(l)
RECURSIVE NeededFrom(_, _)
NeededFrom(l, acc) ==
  IF l > Len(libs) THEN acc
  ELSE NeededFrom(l + 1, IF IsNeeded(l) /\ ~Contains(acc, NeededName(l)) THEN Append(acc, NeededName(l)) ELSE acc)
NeededLibraries == NeededFrom(1, <<>>)

(* the program's definitions that the libraries have to find: those that one *)
(* of them refers to, or that take the place of its own                      *)
KnownTo(l) == LET s == File(libs[l].f).s
              IN {s.undefs[i] : i \in DOMAIN s.undefs} \cup {s.defs[i].n : i \in {j \in DOMAIN s.defs : s.defs[j].b # LOCAL_}}
ExportedNames ==
  LET known == UNION {KnownTo(l) : l \in {k \in DOMAIN libs : IsNeeded(k)}}
  IN {n \in DOMAIN tab : IsDefined(tab[n]) /\ tab[n].v \notin {1, 2} /\ n \in known}
=============================================================================
