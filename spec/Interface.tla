----------------------------- MODULE Interface -----------------------------
(***************************************************************************)
(* The interface of a generated function as a state machine.               *)
(*                                                                         *)
(* The user declares types (trees of scalars, integers, matrices and other *)
(* types), external functions, and a symbolic function that only moves     *)
(* values: elements of its arguments go to external calls, elements of     *)
(* their results and of the arguments go to the outputs.                   *)
(*                                                                         *)
(* Static part: what the library reports about the declaration and what    *)
(* reflection sees of the emitted function is what was declared.           *)
(*                                                                         *)
(* Dynamic part: a run starts with the elements of the arguments known.    *)
(* Each external call the code makes has to be one of the calls the user   *)
(* wrote, with every operand known and in its declared place; it makes the *)
(* elements of its result known.  At the end each requested output holds   *)
(* the elements the user named, and no other output was touched.           *)
(*                                                                         *)
(* Uses: a use of a declared function is accepted exactly when it fits.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES sid, phase, leg, run, pos,
          known,      \* element path -> value
          cmp, verdict
vars == <<sid, phase, leg, run, pos, known, cmp, verdict>>

F == Trace[sid]
Ok == [what |-> "", detail |-> ""]
Bad(w, d) == [what |-> w, detail |-> ToString(d)]
Elems(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))

---------------------------------------------------------------------------
(* Types                                                                   *)
FieldsOf(n) == (CHOOSE d \in Elems(F.types) : d.n = n).fs
IsType(n) == \E d \in Elems(F.types) : d.n = n
Opaque(t) == t.k = "c" /\ FieldsOf(t.n) = <<>>

\* The elements of a value called p: fields in declared order, matrices by rows
RECURSIVE Leaves(_, _)
Leaves(t, p) ==
  CASE t.k \in {"s", "i"} -> <<p>>
    [] t.k = "m" -> [q \in 1..(t.r * t.c) |->
                       p \o "[" \o ToString((q - 1) \div t.c) \o "," \o ToString((q - 1) % t.c) \o "]"]
    [] OTHER -> IF Opaque(t) THEN <<p>>
                ELSE LET fs == FieldsOf(t.n) IN Flatten([i \in 1..Len(fs) |-> Leaves(fs[i].t, p \o "." \o fs[i].f)])

\* A type the library reports, with everything below it, is the declared one
RECURSIVE Same(_, _)
Same(rep, t) ==
  /\ rep.k = t.k /\ rep.r = t.r /\ rep.c = t.c /\ rep.n = t.n
  /\ rep.size = IF t.k = "c" /\ Opaque(t) THEN 0 ELSE Len(Leaves(t, ""))
  /\ t.k = "c" => LET fs == FieldsOf(t.n) IN
                  /\ Len(rep.fs) = Len(fs)
                  /\ \A i \in 1..Len(fs) : rep.fs[i].f = fs[i].f /\ Same(rep.fs[i].t, fs[i].t)

---------------------------------------------------------------------------
(* What the library reports                                                *)
Results == SelectSeq(F.outs, LAMBDA o : o.u # "ret")
Params == [i \in 1..Len(F.args) |-> [n |-> F.args[i].n, d |-> "in", t |-> F.args[i].t]]
          \o [i \in 1..Len(Results) |-> [n |-> Results[i].n, d |-> Results[i].u, t |-> Results[i].t]]

ParamOk(p, w) ==
  /\ p.n = w.n /\ p.d = w.d /\ Same(p.t, w.t)
  /\ p.opt = (IF w.d = "opt" THEN 1 ELSE 0) /\ p.inp = (IF w.d = "in" THEN 1 ELSE 0)

ExtOk(e, w) ==
  /\ e.n = w.n /\ e.num = Len(w.ps) /\ Len(e.ps) = Len(w.ps) /\ Same(e.r, w.r)
  /\ \A i \in 1..Len(w.ps) : e.ps[i].n = w.ps[i].n /\ e.ps[i].at = i - 1 /\ Same(e.ps[i].t, w.ps[i].t)

Described(D) ==
  IF D.name # F.name THEN Bad("name of the function", D.name)
  ELSE IF Len(D.params) # Len(Params) THEN Bad("number of parameters", D.params)
  ELSE IF \E i \in 1..Len(Params) : ~ParamOk(D.params[i], Params[i])
       THEN LET i == CHOOSE i \in 1..Len(Params) : ~ParamOk(D.params[i], Params[i]) IN
            Bad("reported parameter", <<"declared", Params[i], "reported", D.params[i]>>)
  ELSE IF Len(D.exts) # Len(F.exts) \/ \E i \in 1..Len(F.exts) : ~ExtOk(D.exts[i], F.exts[i])
       THEN LET i == CHOOSE i \in 1..Len(F.exts) : ~ExtOk(D.exts[i], F.exts[i]) IN
            Bad("reported external function", <<"declared", F.exts[i], "reported", D.exts[i]>>)
  ELSE Ok

\* the same declaration made in Python and in C++
Declared ==
  LET bad == {i \in 1..Len(F.descs) : Described(F.descs[i]).what # ""} IN
  IF bad = {} THEN Ok
  ELSE LET i == CHOOSE i \in bad : TRUE IN
       Bad(Described(F.descs[i]).what \o " (declared in " \o F.descs[i].front \o ")", Described(F.descs[i]).detail)

---------------------------------------------------------------------------
(* What reflection sees of the emitted function                            *)
PyForm(t) == CASE t.k = "s" -> "float" [] t.k = "i" -> "int" [] t.k = "m" -> "array" [] OTHER -> t.n
Inputs == [i \in 1..Len(F.args) |-> [n |-> F.args[i].n, t |-> PyForm(F.args[i].t)]]
Optionals == SelectSeq(F.outs, LAMBDA o : o.u = "opt")
PySig(lang) ==
  Inputs \o
  (IF lang = "numpyout"
   THEN [i \in 1..Len(Results) |-> [n |-> Results[i].n, t |-> IF Results[i].u = "opt" THEN "array | None" ELSE "array"]]
   ELSE [i \in 1..Len(Optionals) |-> [n |-> "compute_" \o Optionals[i].n, t |-> "bool"]])

Void == [k |-> "void", r |-> 0, c |-> 0, n |-> ""]
Return == LET rs == SelectSeq(F.outs, LAMBDA o : o.u = "ret") IN IF rs = <<>> THEN Void ELSE rs[1].t
CppSig == <<[d |-> "ret", t |-> Return]>> \o [i \in 1..Len(Params) |-> [d |-> Params[i].d, t |-> Params[i].t]]

Signature(L) ==
  IF L.lang \in {"span", "rust"} THEN Ok          \* generic over the containers: settled by the caller's compiler
  ELSE IF L.lang = "eigen"
       THEN IF L.sig = CppSig THEN Ok ELSE Bad("emitted signature", <<"declared", CppSig, "emitted", L.sig>>)
  ELSE LET got == [i \in 1..Len(L.sig) |-> [n |-> L.sig[i].n, t |-> L.sig[i].t]] IN
       IF got = PySig(L.lang) THEN Ok ELSE Bad("emitted signature", <<"declared", PySig(L.lang), "emitted", got>>)

---------------------------------------------------------------------------
(* Runs                                                                    *)
Log == F.legs[leg].runs[run].log
Obs == F.legs[leg].runs[run].obs
Start(r) == F.runs[r].env

Has(f, e) == e.k = "lit" \/ e.v \in DOMAIN f
Val(f, e) == IF e.k = "lit" THEN e.v ELSE f[e.v]
Ext(f) == CHOOSE e \in Elems(F.exts) : e.n = f

\* the event is user's call k
Matches(k, ev) ==
  /\ F.calls[k].f = ev.f /\ Len(F.calls[k].a) = Len(ev.i)
  /\ \A j \in 1..Len(ev.i) : Has(known, F.calls[k].a[j]) /\ Val(known, F.calls[k].a[j]) = ev.i[j]

ResultOf(k, ev) ==
  LET ls == Leaves(Ext(ev.f).r, "#" \o ToString(k)) IN
  [p \in Elems(ls) |-> ev.o[CHOOSE j \in 1..Len(ls) : ls[j] = p]]

RECURSIVE Learn(_, _, _)
Learn(f, ks, ev) ==
  IF ks = {} THEN f
  ELSE LET k == CHOOSE k \in ks : TRUE IN Learn(ResultOf(k, ev) @@ f, ks \ {k}, ev)

Untouched(ob) == ob = <<"none">> \/ \A j \in 1..Len(ob) : ob[j] = "-1"

OutputOk(o, req, ob) ==
  IF req = 0 THEN Untouched(ob)
  ELSE /\ Len(ob) = Len(o.e)
       /\ \A j \in 1..Len(ob) : Has(known, o.e[j]) /\ Val(known, o.e[j]) = ob[j]

Wanted(o) == [j \in 1..Len(o.e) |-> IF Has(known, o.e[j]) THEN Val(known, o.e[j]) ELSE "never computed"]

Returned ==
  LET bad == {i \in 1..Len(F.outs) : ~OutputOk(F.outs[i], F.runs[run].req[i], Obs[i])} IN
  IF Len(Obs) # Len(F.outs) THEN Bad("the outputs are incomplete", Obs)
  ELSE IF bad = {} THEN Ok
  ELSE LET i == CHOOSE i \in bad : TRUE IN
       Bad(IF F.runs[run].req[i] = 0 THEN "an output that was not requested" ELSE "output",
           <<F.outs[i].u, F.outs[i].n, "expected", IF F.runs[run].req[i] = 0 THEN <<"nothing">> ELSE Wanted(F.outs[i]), "got", Obs[i]>>)

---------------------------------------------------------------------------
(* Uses                                                                    *)
Fits(given, want) ==
  IF want.k = "s" THEN given.k = "s" \/ (given.k = "c" /\ given.n = "num")
  ELSE given.k = want.k /\ given.r = want.r /\ given.c = want.c /\ given.n = want.n

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

CallFits(u) ==
  LET ps == Ext(u.f).ps
      at(n) == {i \in 1..Len(ps) : ps[i].n = n} IN
  /\ Len(u.pos) + Len(u.kw) = Len(ps)
  /\ \A i \in 1..Len(u.pos) : Fits(u.pos[i], ps[i].t)
  /\ Distinct([i \in 1..Len(u.kw) |-> u.kw[i].n])
  /\ \A i \in 1..Len(u.kw) : \E j \in at(u.kw[i].n) : j > Len(u.pos) /\ Fits(u.kw[i].t, ps[j].t)

DescriptionFits(u) ==
  LET named == SelectSeq(u.outs, LAMBDA o : o.u # "ret") IN
  /\ Distinct([i \in 1..Len(F.args) |-> F.args[i].n] \o [i \in 1..Len(named) |-> named[i].n])
  /\ Cardinality({i \in 1..Len(u.outs) : u.outs[i].u = "ret"}) <= 1

\* an object holds what its type declares; an integer member takes any scalar
MembersFit(u) ==
  LET fs == FieldsOf(u.t.n) IN
  \A i \in 1..Len(fs) : u.fs[i] = fs[i].t \/ (fs[i].t.k = "i" /\ u.fs[i].k = "s")

UseFits(u) == CASE u.k = "call" -> CallFits(u) [] u.k = "construct" -> MembersFit(u) [] u.k = "describe" -> DescriptionFits(u) [] OTHER -> Distinct(u.ps)

Uses ==
  LET bad == {i \in 1..Len(F.tries) : (F.tries[i].ok = 1) # UseFits(F.tries[i])} IN
  IF bad = {} THEN Ok
  ELSE LET i == CHOOSE i \in bad : TRUE IN
       Bad(IF F.tries[i].ok = 1 THEN "a use that does not fit was accepted" ELSE "a use that fits was refused", F.tries[i])

---------------------------------------------------------------------------
Init ==
  /\ sid \in 1..Len(Trace)
  /\ phase = "declare" /\ leg = 0 /\ run = 0 /\ pos = 0 /\ known = <<>> /\ cmp = 0 /\ verdict = Ok

Going == verdict.what = ""

Declare ==
  /\ Going /\ phase = "declare"
  /\ \E v \in {Declared} : verdict' = v
  /\ phase' = "emit" /\ leg' = 1 /\ cmp' = cmp + Len(Params)
  /\ UNCHANGED <<sid, run, pos, known>>

Emit ==          \* the next language
  /\ Going /\ phase = "emit" /\ leg <= Len(F.legs)
  /\ \E v \in {Signature(F.legs[leg])} : verdict' = v
  /\ run' = 1 /\ pos' = 1 /\ known' = Start(1) /\ phase' = "run"
  /\ UNCHANGED <<sid, leg, cmp>>

Call ==          \* the emitted code calls an external function
  /\ Going /\ phase = "run" /\ pos <= Len(Log)
  /\ \E ks \in {{k \in 1..Len(F.calls) : Matches(k, Log[pos])}} :
       IF ks = {}
       THEN /\ verdict' = Bad("a call the user did not make", <<Log[pos], "known", known>>) /\ UNCHANGED known
       ELSE /\ \E f \in {Learn(known, ks, Log[pos])} : known' = f
            /\ UNCHANGED verdict
  /\ pos' = pos + 1 /\ cmp' = cmp + Len(Log[pos].i)
  /\ UNCHANGED <<sid, phase, leg, run>>

Finish ==        \* the call of the emitted function returns
  /\ Going /\ phase = "run" /\ pos > Len(Log)
  /\ \E v \in {Returned} : verdict' = v
  /\ cmp' = cmp + Len(Flatten(Obs))
  /\ pos' = 1 /\ UNCHANGED sid
  /\ IF run < Len(F.runs)
     THEN run' = run + 1 /\ known' = Start(run + 1) /\ UNCHANGED <<leg, phase>>
     ELSE leg' = leg + 1 /\ phase' = "emit" /\ run' = 0 /\ known' = <<>>

Use ==
  /\ Going /\ phase = "emit" /\ leg > Len(F.legs)
  /\ \E v \in {Uses} : verdict' = v
  /\ phase' = "end" /\ cmp' = cmp + Len(F.tries)
  /\ UNCHANGED <<sid, leg, run, pos, known>>

Next == Declare \/ Emit \/ Call \/ Finish \/ Use
Spec == Init /\ [][Next]_vars

\* never learns two values for one element, never forgets
OneValue == [][run' = run /\ leg' = leg /\ phase = "run" => \A p \in DOMAIN known : p \in DOMAIN known' /\ known'[p] = known[p]]_vars

Lang == IF leg \in 1..Len(F.legs) THEN F.legs[leg].lang ELSE ""
Report ==
  IF ~Going THEN PrintT("@@REJECT " \o ToJson([id |-> F.id, lang |-> Lang, run |-> run, what |-> verdict.what, detail |-> verdict.detail, cmp |-> cmp]))
  ELSE IF phase = "end" THEN PrintT("@@DONE " \o ToJson([id |-> F.id, cmp |-> cmp]))
  ELSE TRUE
=============================================================================
