------------------------------ MODULE Printer ------------------------------
(***************************************************************************)
(* Printing of a generated program as a pushdown machine.                  *)
(*                                                                         *)
(* The user may replace the printing of any kind of element.  Printing is  *)
(* a walk over the syntax tree: an element with a user's printer is handed *)
(* to it, every other one is printed by the built-in printer of the        *)
(* language; either way the elements below are printed by the same rule.   *)
(* The machine reads the emitted text token by token: `o` (the user's      *)
(* printer was entered with an element of that description), `c` (it was   *)
(* left) and `x` (text).                                                   *)
(*                                                                         *)
(* The first printings of an item wrap every kind: there the machine      *)
(* learns what the built-in printer writes around the children of each     *)
(* element (`tmpl`).  From then on every emitted character is determined.  *)
(*                                                                         *)
(* How a user's printer acts (`mode`):                                     *)
(*   wrap     marks around what the built-in printer writes                *)
(*   replace  writes "@" and looks at nothing below                        *)
(*   rebuild  writes the elements below, one after another, separated by | *)
(*   raise    raises an exception of the user                              *)
(*   bad      returns something that is not a string                       *)
(*   loop     asks for the element it was given to be printed              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES sid, p, i,
          todo,      \* what is still to be printed
          gaps,      \* open elements while learning: text between their children
          tmpl,      \* element -> sequence of texts around its children
          verdict
vars == <<sid, p, i, todo, gaps, tmpl, verdict>>

Item == Trace[sid]
Run == Item.prints[p]
Node(n) == Item.nodes[n]
Lang == Item.lang

Nd(n) == [t |-> "n", n |-> n, s |-> ""]
Tx(s) == [t |-> "x", n |-> 0, s |-> s]
Close(n) == [t |-> "c", n |-> n, s |-> ""]

\* ---------------------------------------------------------------- the languages
Mode(n) == LET k == Node(n).k IN
  IF k \in DOMAIN Run.ov THEN Run.ov[k] ELSE "none"

IsMatrix(n) == Node(n).k = "matrix_type"
\* an output that is not a matrix cannot be written in place in Python
PlainOutput(n) == \E j \in 1..Len(Node(n).t) : Node(n).d[j] # "in" /\ ~IsMatrix(Node(n).t[j])

Unprintable(n) ==
  LET k == Node(n).k IN
  CASE Lang = "base" -> TRUE
    [] Lang = "cppspan" -> k \in {"matrix_type", "construct_matrix"}
    [] Lang = "rust" -> k \in {"matrix_type", "construct_matrix"}
    [] Lang = "py" -> k = "return_object"
    [] Lang = "pyout" -> k = "return_object" \/ (k = "function_definition" /\ PlainOutput(Node(n).t[1]))
    [] OTHER -> FALSE

NotMatrix(n) == ~IsMatrix(n)

\* parameters whose type appears in the text of a signature
RECURSIVE PyTypes(_, _)
PyTypes(t, d) ==
  IF t = <<>> THEN <<>>
  ELSE (IF Head(d) = "in" \/ Lang = "pyout" THEN <<Head(t)>> ELSE <<>>) \o PyTypes(Tail(t), Tail(d))

Direct(n) == Node(n).t \o Node(n).c      \* the elements directly below

\* the elements below n that the built-in printer writes, in order
Printed(n) ==
  LET N == Node(n) IN
  CASE N.k = "function_signature" ->
         (CASE Lang \in {"cppspan", "cppeigen"} -> N.c \o SelectSeq(N.t, NotMatrix)
            [] Lang = "rust" -> SelectSeq(N.t, NotMatrix) \o N.c
            [] OTHER -> PyTypes(N.t, N.d) \o N.c)
    [] N.k = "assign_output_matrix" ->
         (IF Lang \in {"cppspan", "cppeigen", "rust"} THEN Node(N.c[1]).c ELSE N.c)
    [] N.k = "declaration" -> (IF Lang \in {"py", "pyout"} THEN N.c ELSE Direct(n))
    [] N.k = "construct_matrix" -> N.c
    [] N.k = "call_std_function" /\ N.v = "Signum" /\ Lang \in {"cppspan", "cppeigen", "rust"} -> N.c \o N.c
    [] N.k = "function_definition" /\ Lang \in {"py", "pyout"} /\ Node(N.c[Len(N.c)]).k = "return_object" ->
         N.t \o SubSeq(N.c, 1, Len(N.c) - 1) \o Node(N.c[Len(N.c)]).c
    [] OTHER -> Direct(n)

Shown(n) == CASE Mode(n) = "rebuild" -> Direct(n)
              [] Mode(n) \in {"replace", "raise", "bad", "loop"} -> <<>>
              [] OTHER -> Printed(n)

\* ---------------------------------------------------------------- refusals
Why(n) ==
  CASE Mode(n) = "raise" -> {"Oops"}
    [] Mode(n) = "bad" -> {"TypeError"}
    [] Mode(n) = "loop" -> {"RuntimeError"}
    [] Mode(n) \in {"none", "wrap"} /\ Unprintable(n) -> {"TypeError"}
    [] OTHER -> {}

Elems(q) == {q[j] : j \in 1..Len(q)}

RECURSIVE Must(_)       \* reasons why printing n cannot succeed
Must(n) == Why(n) \cup UNION {Must(m) : m \in Elems(Shown(n))}

RECURSIVE May(_)        \* the same where elements are printed whose text is not used
May(n) == Why(n) \cup (IF Mode(n) \in {"replace", "raise", "bad", "loop"} THEN {}
                       ELSE UNION {May(m) : m \in Elems(Direct(n)) \cup Elems(Printed(n))})

MustRun == UNION {Must(Run.roots[j]) : j \in 1..Len(Run.roots)}
MayRun == UNION {May(Run.roots[j]) : j \in 1..Len(Run.roots)}

\* ---------------------------------------------------------------- the walk
RECURSIVE Between(_, _)      \* elements ns with texts around them
Between(ns, xs) ==
  IF ns = <<>> THEN <<Tx(xs[1])>>
  ELSE <<Tx(xs[1]), Nd(ns[1])>> \o Between(Tail(ns), Tail(xs))

RECURSIVE Bar(_)
Bar(ns) == IF Len(ns) < 2 THEN [j \in 1..Len(ns) |-> Nd(ns[j])]
           ELSE <<Nd(ns[1]), Tx("|")>> \o Bar(Tail(ns))

RECURSIVE Start(_)           \* several definitions are separated by an empty line
Start(ns) == IF Len(ns) < 2 THEN [j \in 1..Len(ns) |-> Nd(ns[j])]
             ELSE <<Nd(ns[1]), Tx("\n\n")>> \o Start(Tail(ns))

\* what is written for a type depends on its description alone
Key(n) == Node(n).key
Knows(n) == Key(n) \in DOMAIN tmpl /\ Len(tmpl[Key(n)]) = Len(Printed(n)) + 1

Inside(n) == CASE Mode(n) = "rebuild" -> Bar(Direct(n))
               [] Mode(n) = "replace" -> <<Tx("@")>>
               [] OTHER -> IF Knows(n) THEN Between(Printed(n), tmpl[Key(n)]) ELSE <<Tx("?unknown")>>

\* proceed to the next mark; the text on the way
RECURSIVE Advance(_, _)
Advance(td, acc) ==
  IF td = <<>> THEN [x |-> acc, td |-> td]
  ELSE LET h == Head(td) IN
       CASE h.t = "x" -> Advance(Tail(td), acc \o h.s)
         [] h.t = "n" /\ Mode(h.n) = "none" -> Advance(Inside(h.n) \o Tail(td), acc)
         [] OTHER -> [x |-> acc, td |-> td]

Learning == Run.how = "learn"

LearnKids(n) == [j \in 1..Len(Shown(n)) |-> Nd(Shown(n)[j])]

Begin(r) == IF r > Len(Item.prints) THEN <<>> ELSE Start(Item.prints[r].roots)

Init ==
  /\ sid \in 1..Len(Trace)
  /\ p = 1 /\ i = 1 /\ todo = Begin(1) /\ gaps = <<<<"">>>> /\ tmpl = <<>> /\ verdict = "ok"

Active == verdict = "ok" /\ p <= Len(Item.prints)
Tok == Run.toks[i]

Fail(w) == verdict' = w /\ UNCHANGED <<sid, p, i, todo, gaps, tmpl>>

NextRun == /\ p' = p + 1 /\ i' = 1 /\ todo' = Begin(p + 1) /\ gaps' = <<<<"">>>> /\ UNCHANGED <<sid, tmpl>>

Refused ==
  /\ Active /\ Run.err # ""
  /\ IF Run.err \in MayRun
     THEN IF Learning THEN p' = Len(Item.prints) + 1 /\ UNCHANGED <<sid, i, todo, gaps, tmpl, verdict>>
          ELSE NextRun /\ UNCHANGED verdict
     ELSE Fail("must not raise " \o Run.err)

Upd(s) == [s EXCEPT ![Len(s)] = [@ EXCEPT ![Len(@)] = @ \o Tok.s]]

Learn ==
  /\ Active /\ Run.err = "" /\ Learning /\ i <= Len(Run.toks)
  /\ CASE Tok.t = "x" ->
            gaps' = Upd(gaps) /\ i' = i + 1 /\ UNCHANGED <<sid, p, todo, tmpl, verdict>>
       [] Tok.t = "o" ->
            IF todo # <<>> /\ Head(todo).t = "n" /\ Node(Head(todo).n).l = Tok.s /\ Why(Head(todo).n) = {}
            THEN /\ todo' = LearnKids(Head(todo).n) \o <<Close(Head(todo).n)>> \o Tail(todo)
                 /\ gaps' = Append(gaps, <<"">>) /\ i' = i + 1 /\ UNCHANGED <<sid, p, tmpl, verdict>>
            ELSE Fail("handed an element out of place")
       [] Tok.t = "c" ->
            IF todo # <<>> /\ Head(todo).t = "c"
            THEN LET n == Key(Head(todo).n)
                     g == gaps[Len(gaps)]
                     rest == SubSeq(gaps, 1, Len(gaps) - 1) IN
                 /\ todo' = Tail(todo) /\ i' = i + 1
                 /\ gaps' = [rest EXCEPT ![Len(rest)] = Append(@, "")]
                 /\ IF n \in DOMAIN tmpl /\ tmpl[n] # g
                    THEN verdict' = "prints an element in two ways" /\ UNCHANGED tmpl
                    ELSE tmpl' = (n :> g) @@ tmpl /\ UNCHANGED verdict
                 /\ UNCHANGED <<sid, p>>
            ELSE Fail("does not hand over an element")

\* without the marks, the text is that of the built-in printer (where that can print it all)
LearnEnd ==
  /\ Active /\ Run.err = "" /\ Learning /\ i > Len(Run.toks)
  /\ IF todo # <<>> THEN Fail("does not hand over an element")
     ELSE IF Item.plain \notin {"", Item.bare} THEN Fail("differs from the built-in text")
     ELSE IF gaps # <<<<"", "">>>> THEN Fail("text outside of the function")
     ELSE NextRun /\ UNCHANGED verdict

Read ==
  /\ Active /\ Run.err = "" /\ ~Learning /\ i <= Len(Run.toks)
  /\ \E a \in {Advance(todo, "")} :
       CASE i = 1 /\ MustRun # {} -> Fail("must raise")
         [] Tok.x # a.x -> Fail("text differs")
         [] Tok.t = "e" -> IF a.td = <<>> THEN i' = i + 1 /\ todo' = <<>> /\ UNCHANGED <<sid, p, gaps, tmpl, verdict>>
                           ELSE Fail("does not hand over an element")
         [] Tok.t = "o" ->
              IF a.td # <<>> /\ Head(a.td).t = "n" /\ Node(Head(a.td).n).l = Tok.s
              THEN /\ todo' = Inside(Head(a.td).n) \o <<Close(Head(a.td).n)>> \o Tail(a.td)
                   /\ i' = i + 1 /\ UNCHANGED <<sid, p, gaps, tmpl, verdict>>
              ELSE Fail("handed an element out of place")
         [] Tok.t = "c" ->
              IF a.td # <<>> /\ Head(a.td).t = "c"
              THEN todo' = Tail(a.td) /\ i' = i + 1 /\ UNCHANGED <<sid, p, gaps, tmpl, verdict>>
              ELSE Fail("does not hand over an element")

ReadEnd ==
  /\ Active /\ Run.err = "" /\ ~Learning /\ i > Len(Run.toks)
  /\ NextRun /\ UNCHANGED verdict

Next == Refused \/ Learn \/ LearnEnd \/ Read \/ ReadEnd
Spec == Init /\ [][Next]_vars

Done == verdict # "ok" \/ p > Len(Item.prints)
Report ==
  IF ~Done THEN TRUE
  ELSE PrintT("@@S " \o ToJson([sid |-> sid, p |-> p, i |-> i, verdict |-> verdict,
                                want |-> IF verdict = "text differs" THEN Advance(todo, "").x ELSE ""]))
=============================================================================
