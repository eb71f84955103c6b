------------------------------- MODULE Script -------------------------------
(* Linker scripts: a machine that reads the text character by character.    *)
(* Lexical mode m:  "n" between words, "w" in a word, "/" after a slash     *)
(* that may open a comment, "c" in a comment, "*" after a star in a comment.*)
(* Grammar state q: "top"; "G" after GROUP, "g" inside it; "A" after        *)
(* AS_NEEDED, "a" inside it; "O" after OUTPUT_FORMAT, "o" and "p" inside    *)
(* before and after its argument; "bad".  out: the members, in order.       *)
(* "any": the text's meaning isn't laid down (see Unspecified).             *)
EXTENDS Naturals, Sequences

Blanks == {" ", "\t", "\n", "\r"}
WordChars == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
  "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-",
  ".", "_", "/"}

ScriptInit == [m |-> "n", q |-> "top", wd |-> "", out |-> <<>>]

StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

(* words whose treatment no document lays down *)
Unspecified(q, x) ==
  /\ q \in {"g", "a"}
  /\ \/ StartsWith(x, "AS_NEEDED") /\ x # "AS_NEEDED"
     \/ StartsWith(x, "-") /\ ~StartsWith(x, "-l")
     \/ x = "-l"

(* the effect of a complete token on grammar state and output *)
Token(s, x) ==
  LET go(q) == [s EXCEPT !.q = q, !.wd = "", !.m = "n"]
      emit(asn) == [s EXCEPT !.out = Append(@, [n |-> x, asn |-> asn]), !.wd = "", !.m = "n"]
  IN CASE s.q = "any" -> go("any")
       [] s.q \in {"g", "a"} /\ Unspecified(s.q, x) -> go("any")
       [] s.q = "top" -> IF x = "GROUP" THEN go("G") ELSE IF x = "OUTPUT_FORMAT" THEN go("O") ELSE go("bad")
       [] s.q = "G" -> IF x = "(" THEN go("g") ELSE go("bad")
       [] s.q = "A" -> IF x = "(" THEN go("a") ELSE go("bad")
       [] s.q = "O" -> IF x = "(" THEN go("o") ELSE go("bad")
       [] s.q = "o" -> IF x \in {"(", ")"} THEN go("bad") ELSE go("p")
       [] s.q = "p" -> IF x = ")" THEN go("top") ELSE go("bad")
       [] s.q = "g" -> (CASE x = ")" -> go("top") [] x = "(" -> go("bad") [] x = "AS_NEEDED" -> go("A")
                          [] OTHER -> emit(FALSE))
       [] s.q = "a" -> (CASE x = ")" -> go("g") [] x = "(" -> go("bad") [] OTHER -> emit(TRUE))
       [] OTHER -> go("bad")

(* the end of the current word, if there is one *)
EndWord(s) == IF s.wd = "" THEN [s EXCEPT !.m = "n"] ELSE Token(s, s.wd)

IsKeyword(q, x) == (q = "top" /\ x \in {"GROUP", "OUTPUT_FORMAT"}) \/ (q = "g" /\ x = "AS_NEEDED")

ReadChar(s, c) ==
  CASE s.m = "c" -> IF c = "*" THEN [s EXCEPT !.m = "*"] ELSE s
    [] s.m = "*" -> IF c = "/" THEN [s EXCEPT !.m = "n"] ELSE IF c = "*" THEN s ELSE [s EXCEPT !.m = "c"]
    [] c = "*" ->
         IF s.m = "/" /\ s.wd = "/" THEN [s EXCEPT !.m = "c", !.wd = ""]
         ELSE IF s.m = "/"
              THEN LET x == SubSeq(s.wd, 1, Len(s.wd) - 1)    \* a word directly before a comment
                   IN IF IsKeyword(s.q, x) THEN [Token(s, x) EXCEPT !.m = "c"] ELSE [s EXCEPT !.q = "any"]
              ELSE [EndWord(s) EXCEPT !.q = "bad"]
    [] c \in Blanks -> EndWord(s)
    [] c \in {"(", ")"} -> Token(EndWord(s), c)
    [] c \in WordChars -> [s EXCEPT !.wd = s.wd \o c, !.m = IF c = "/" THEN "/" ELSE "w"]
    [] OTHER -> LET e == EndWord(s) IN IF e.q = "any" THEN e ELSE [e EXCEPT !.q = "bad"]

RECURSIVE ReadFrom(_, _, _)
ReadFrom(text, i, s) ==
  IF i > Len(text) \/ s.q \in {"bad", "any"} THEN s ELSE ReadFrom(text, i + 1, ReadChar(s, SubSeq(text, i, i)))

(* [r: "ok" | "bad" | "any", out: members] *)
EndScript(s) ==
  IF s.q = "any" THEN [r |-> "any", out |-> <<>>]
  ELSE LET e == EndWord(s)
       IN IF e.q = "any" THEN [r |-> "any", out |-> <<>>]
          ELSE IF e.q = "top" /\ s.m \notin {"c", "*"} THEN [r |-> "ok", out |-> e.out]
          ELSE [r |-> "bad", out |-> <<>>]
ReadScript(text) == EndScript(ReadFrom(text, 1, ScriptInit))
=============================================================================
