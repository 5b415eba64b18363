-------------------------------- MODULE Span --------------------------------
(***************************************************************************)
(* The C++ runtime spans (wrenfold/span.h) as a state machine.             *)
(*                                                                         *)
(* State: memory regions and views.  A region is a finite map from cell    *)
(* addresses to values (every other cell has its initial value).  A view   *)
(* names a region, an offset, dimensions and strides; element (i, j, ..)   *)
(* of a view IS the cell at  offset + i * stride1 + j * stride2 + ..       *)
(* One transition per use of the library: creation of a view from raw      *)
(* memory, an array, an Eigen object or expression, a quaternion, a user   *)
(* adaptor or another view; blocks; conversions; reads; writes; queries.   *)
(* After every write the cells of all regions are compared.                *)
(*                                                                         *)
(* A second kind of session records which uses the compiler accepted; the  *)
(* predicate Compiles(u) says which uses fit the statically known shapes.  *)
(***************************************************************************)
EXTENDS Num, Sequences, Naturals, Integers, FiniteSets, TLC, Json, IOUtils, SequencesExt

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES sid, l, regs, views, verdict, stats
vars == <<sid, l, regs, views, verdict, stats>>

Sess == Trace[sid]

Init ==
  /\ sid \in 1..Len(Trace)
  /\ l = 1 /\ regs = <<>> /\ views = <<>>
  /\ verdict = "ok" /\ stats = <<0, 0>>

(* ------------------------------- addressing ------------------------------ *)
Free == "*"      \* a stride along an axis with fewer than two elements
Term(i, s) == IF i = "0" \/ s = Free THEN "0" ELSE NMul(i, s)
SumSeq(s) == FoldLeft(LAMBDA a, b : NAdd(a, b), "0", s)
Offset(v, idx) == SumSeq([k \in 1..Len(v.str) |-> Term(idx[k], v.str[k])])
Addr(v, idx) == NAdd(v.off, Offset(v, idx))
View(rg, off, dims, str, null) == [rg |-> rg, off |-> off, dims |-> dims, str |-> str, null |-> null]

RowMajor(dims) == [k \in 1..Len(dims) |->
   FoldLeft(LAMBDA acc, d : NMul(acc, d), "1", SubSeq(dims, k + 1, Len(dims)))]

Dec(n) == ToString(n)
\* 0-based multi-indices of a view, last index fastest
RECURSIVE Indices(_)
Indices(dims) ==
  IF dims = <<>> THEN << <<>> >>
  ELSE LET rest == Indices(Tail(dims))
           n == CHOOSE k \in 0..64 : Dec(k) = dims[1] IN
       FlattenSeq([i \in 1..n |-> [j \in 1..Len(rest) |-> <<Dec(i - 1)>> \o rest[j]]])

(* ------------------- Eigen expressions of fixed size --------------------- *)
\* base: stored column-major or row-major, inner and outer strides ("0": packed)
EigenBase(o) ==
  LET r == o.p[2] c == o.p[3]
      row == o.s = "row"
      inner == IF o.q[1] = "0" THEN "1" ELSE o.q[1]
      outer == IF o.q[2] = "0" THEN NMul(inner, IF row THEN c ELSE r) ELSE o.q[2]
  IN View(o.rg, o.p[1], <<r, c>>, IF row THEN <<outer, inner>> ELSE <<inner, outer>>, FALSE)
\* a vector's only stride is its inner stride
EigenVec(v, o) ==
  LET inner == IF o.q[1] = "0" THEN "1" ELSE o.q[1] IN
  IF v.dims[2] = "1" THEN [v EXCEPT !.str = <<inner, Free>>]
  ELSE IF v.dims[1] = "1" THEN [v EXCEPT !.str = <<Free, inner>>] ELSE v
EigenStep(v, e) ==
  CASE e[1] = "T" -> [v EXCEPT !.dims = <<v.dims[2], v.dims[1]>>, !.str = <<v.str[2], v.str[1]>>]
    [] e[1] = "block" -> [v EXCEPT !.off = Addr(v, <<e[2], e[3]>>), !.dims = <<e[4], e[5]>>]
    [] e[1] = "row" -> [v EXCEPT !.off = Addr(v, <<e[2], "0">>), !.dims = <<"1", v.dims[2]>>]
    [] e[1] = "col" -> [v EXCEPT !.off = Addr(v, <<"0", e[2]>>), !.dims = <<v.dims[1], "1">>]
    [] e[1] = "diag" -> [v EXCEPT !.dims = <<e[2], "1">>, !.str = <<NAdd(v.str[1], v.str[2]), Free>>]
\* where an axis has fewer than two elements its stride is not observable
Loose(v) == [v EXCEPT !.str = [k \in 1..Len(v.str) |-> IF v.dims[k] \in {"0", "1"} THEN Free ELSE v.str[k]]]

Made(o) ==
  CASE o.op = "span" -> View(o.rg, o.p[1], o.q, o.k, FALSE)
    [] o.op = "array" -> View(o.rg, "0", o.p, <<"1">>, FALSE)
    [] o.op = "adaptor" -> View(o.rg, "0", o.p, RowMajor(o.p), FALSE)
    [] o.op = "eigen" -> Loose(FoldLeft(EigenStep, EigenVec(EigenBase(o), o), o.e))
    [] o.op = "quat" -> View(o.rg, o.p[1], <<"4", "1">>, <<"1", Free>>, FALSE)
    [] o.op = "null" -> View(0, "0", o.p, [k \in 1..Len(o.p) |-> Free], TRUE)
    [] o.op = "block" -> [views[o.v] EXCEPT !.off = Addr(views[o.v], o.p), !.dims = o.q]
    [] o.op \in {"const", "promote", "copy", "in", "out", "opt"} -> views[o.v]
Makes == {"span", "array", "adaptor", "eigen", "quat", "null", "block", "const", "promote", "copy", "in", "out", "opt"}

(* what a query of a new view reports: start (or null), shape, strides *)
Shows(v, r) ==
  LET n == Len(v.dims) IN
  /\ r.rank = Dec(n)
  /\ IF v.null THEN r.at = "null"
     ELSE (\E k \in 1..n : v.dims[k] = "0") \/ r.at = v.off       \* a view without elements starts nowhere
  /\ r.dims = v.dims
  /\ r.row = v.dims[1] /\ (n < 2 \/ r.col = v.dims[2])
  /\ Len(r.str) = n /\ \A k \in 1..n : v.str[k] = Free \/ r.str[k] = v.str[k]

(* -------------------------------- memory --------------------------------- *)
Initial(g, a) == IF g.init = "iota" THEN NAdd(a, "1") ELSE "0"
Cell(g, a) == IF a \in DOMAIN g.cells THEN g.cells[a] ELSE Initial(g, a)
Put(g, a, x) == [g EXCEPT !.cells = (a :> x) @@ g.cells]
Dump == FlattenSeq([i \in 1..Len(regs') |-> [j \in 1..Len(regs'[i].probes) |-> Cell(regs'[i], regs'[i].probes[j])]])

(* ------------------------- uses and static shapes ------------------------ *)
\* the shape the compiler knows of an object ("?" when only known at run time)
Compiles(u) ==
  CASE u.op = "pass" ->          \* object u.s of shape u.p (u.k: "span" or "eigen" ...) where u.q is expected
         (CASE u.k = "null" -> u.s = "opt"
            [] u.k = "other" -> FALSE
            [] OTHER -> u.p = u.q)
    [] u.op = "make" -> Len(u.p) = Len(u.q) /\ Len(u.p) > 0
    [] u.op = "index" -> u.k # "word" /\ Len(u.p) = Len(u.q)
    [] u.op = "bracket" -> Len(u.p) = 1
    [] u.op = "block" -> Len(u.q) = Len(u.p) /\ Len(u.e) = Len(u.p)
    [] u.op = "axis" -> \E k \in 0..Len(u.p) - 1 : Dec(k) = u.q[1]
    [] u.op = "cols" -> Len(u.p) >= 2
    [] u.op = "assign" -> u.s # "const"          \* writing through a view
    [] u.op = "promote" ->                       \* u.s, u.k: constness of source and target
         /\ u.p = u.q /\ (u.s = "const" => u.k = "const")

(* ------------------------------ transitions ------------------------------ *)
Fail(o) == verdict' = o.op
Ok == verdict' = "ok"
Count == stats' = <<stats[1] + 1, stats[2]>>

Step ==
  /\ l <= Len(Sess.ops) /\ verdict = "ok"
  /\ l' = l + 1 /\ UNCHANGED sid
  /\ LET o == Sess.ops[l] IN
     IF Sess.kind = "compile" THEN
       /\ UNCHANGED <<regs, views>> /\ Count
       /\ IF (o.r = "yes") = Compiles(o) THEN Ok ELSE Fail(o)
     ELSE
       CASE o.op = "region" ->
              /\ regs' = Append(regs, [init |-> o.s, cells |-> [a \in {} |-> ""], probes |-> o.q])
              /\ UNCHANGED views /\ Count
              /\ IF o.r = Dump THEN Ok ELSE Fail(o)
         [] o.op \in Makes ->
              \E v \in {Made(o)} :
                /\ views' = Append(views, v) /\ UNCHANGED regs /\ Count
                /\ IF Shows(v, o.r) THEN Ok ELSE Fail(o)
         [] o.op = "write" ->
              /\ LET v == views[o.v] IN regs' = [regs EXCEPT ![v.rg] = Put(@, Addr(v, o.p), o.s)]
              /\ UNCHANGED views /\ Count
              /\ IF o.r = Dump THEN Ok ELSE Fail(o)
         [] o.op = "fill" ->     \* elements in index order get the values o.p
              /\ LET v == views[o.v] IN \E ix \in {Indices(v.dims)} :
                   regs' = [regs EXCEPT ![v.rg] = FoldLeftDomain(LAMBDA g, k : Put(g, Addr(v, ix[k]), o.p[k]), @, ix)]
              /\ UNCHANGED views /\ Count
              /\ IF o.r = Dump THEN Ok ELSE Fail(o)
         [] o.op = "read" ->
              /\ UNCHANGED <<regs, views>> /\ Count
              /\ LET v == views[o.v] IN
                 IF o.r = <<Cell(regs[v.rg], Addr(v, o.p))>> THEN Ok ELSE Fail(o)
         [] o.op = "all" ->
              /\ UNCHANGED <<regs, views>> /\ Count
              /\ LET v == views[o.v] IN \E ix \in {Indices(v.dims)} :
                 IF o.r = [k \in 1..Len(ix) |-> Cell(regs[v.rg], Addr(v, ix[k]))] THEN Ok ELSE Fail(o)
         [] o.op = "index" ->
              /\ UNCHANGED <<regs, views>> /\ Count
              /\ IF o.r = <<Offset(views[o.v], o.p)>> THEN Ok ELSE Fail(o)

Next == Step
Spec == Init /\ [][Next]_vars

Done == verdict # "ok" \/ l > Len(Sess.ops)
Report ==
  IF ~Done THEN TRUE
  ELSE PrintT("@@S " \o ToJson([sid |-> sid, l |-> l - 1, verdict |-> verdict, n |-> stats[1]]))
=============================================================================
