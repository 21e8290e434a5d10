------------------------------- MODULE Session -------------------------------
(* What happens around a parser in the course of its life: files come, go    *)
(* and change, and files and strings are parsed. The result of every parse   *)
(* is that of the text alone.                                                *)
(*                                                                           *)
(* Texts are numbered; Unreadable are those that are not UTF-8. A name holds *)
(* <<"none">>, <<"dir">>, <<"text", k>> or <<"link", other name>>.           *)
(* An operation is <<what, name, text or other name>>:                       *)
(*   write, keep (the time of the file), replace (by another file),          *)
(*   remove, mkdir, rename (to), link (to it, as the other name),            *)
(*   parse (the file), string (the text), strings (by several threads),      *)
(*   files (likewise), laps (several texts, in turn, very often),            *)
(*   storm (several texts by several threads, often)                         *)
EXTENDS Naturals, Sequences

None == <<"none">>
IsText(x) == x[1] = "text"

(* Where a name leads: at most as many links as there are names              *)
Leads(fs, name) ==
  LET go[d \in 0..Len(fs)] == IF d = 0 THEN name
                              ELSE IF fs[go[d - 1]][1] = "link" THEN fs[go[d - 1]][2] ELSE go[d - 1]
  IN go[Len(fs)]
Held(fs, name) == fs[Leads(fs, name)]

(* The text a parse is the result of, 0 if it must be an I/O error           *)
TextOf(fs, name, unreadable) ==
  LET x == Held(fs, name) IN IF IsText(x) /\ x[2] \notin unreadable THEN x[2] ELSE 0

Possible(fs, op) ==
  LET f == op[2] g == op[3]
  IN CASE op[1] \in {"string", "strings", "parse", "files", "laps", "storm"} -> TRUE
       [] op[1] = "write" -> IsText(Held(fs, f)) \/ fs[f] = None
       [] op[1] = "keep" -> IsText(Held(fs, f))
       [] op[1] = "replace" -> fs[f][1] # "dir"
       [] op[1] = "remove" -> fs[f] # None
       [] op[1] = "mkdir" -> fs[f] = None
       [] op[1] = "rename" -> f # g /\ fs[f][1] \in {"text", "link"} /\ fs[g][1] # "dir"
       [] op[1] = "link" -> f # g /\ fs[g] = None

Done(fs, op) ==
  LET f == op[2] g == op[3]
  IN CASE op[1] \in {"write", "keep"} -> [fs EXCEPT ![Leads(fs, f)] = <<"text", g>>]
       [] op[1] = "replace" -> [fs EXCEPT ![f] = <<"text", g>>]
       [] op[1] = "remove" -> [fs EXCEPT ![f] = None]
       [] op[1] = "mkdir" -> [fs EXCEPT ![f] = <<"dir">>]
       [] op[1] = "rename" -> [fs EXCEPT ![f] = None, ![g] = fs[f]]
       [] op[1] = "link" -> [fs EXCEPT ![g] = <<"link", f>>]
       [] OTHER -> fs

Operations(names, texts) ==
  UNION {{<<"string", 1, k>> : k \in texts},
         {<<w, f, k>> : w \in {"write", "keep", "replace"}, f \in names, k \in texts},
         {<<w, f, 0>> : w \in {"remove", "mkdir", "parse"}, f \in names},
         {<<w, f, g>> : w \in {"rename", "link"}, f \in names, g \in names}}
=============================================================================
