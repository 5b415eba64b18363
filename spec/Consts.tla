------------------------------ MODULE Consts ------------------------------
(***************************************************************************)
(* Arithmetic on constants.                                                *)
(*                                                                         *)
(* A constant is an exact rational ("x"), a floating-point number ("f",    *)
(* given by its exact value), the complex infinity ("z"), the undefined    *)
(* value ("n") or a truth value ("b").  Apply(op, a) is the one constant   *)
(* the operation must produce; exact arithmetic may instead be refused,    *)
(* but only when some number involved does not fit in 64 bits.             *)
(*                                                                         *)
(* Each behaviour is one computation: registers hold operands, one step    *)
(* executes the operation, and its recorded outcome must be allowed.       *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done
vars == <<i, done>>

X(v) == [t |-> "x", v |-> v]
F(v) == [t |-> "f", v |-> v]
Z == [t |-> "z", v |-> ""]
N == [t |-> "n", v |-> ""]
B(v) == [t |-> "b", v |-> v]
AnyC == [t |-> "any", v |-> ""]      \* not decided here

IsNum(a) == a.t \in {"x", "f"}
IsZ0(a) == IsNum(a) /\ NIsZero(a.v)
Kind(a, b) == IF a.t = "f" \/ b.t = "f" THEN "f" ELSE "x"
\* a floating-point zero operand is taken as an exact zero in sums and products
Num(k, v) == IF v = Undef THEN N ELSE [t |-> k, v |-> v]

Add(a, b) ==
  IF "n" \in {a.t, b.t} THEN N
  ELSE IF a.t = "z" /\ b.t = "z" THEN N
  ELSE IF "z" \in {a.t, b.t} THEN Z
  ELSE IF Kind(a, b) = "x" THEN X(NAdd(a.v, b.v))
  ELSE F(NAdd(NToDouble(a.v), NToDouble(b.v)))        \* exact operands are converted first
Mul(a, b) ==
  IF "n" \in {a.t, b.t} THEN N
  ELSE IF "z" \in {a.t, b.t} THEN (IF IsZ0(a) \/ IsZ0(b) THEN N ELSE Z)
  ELSE Num(Kind(a, b), NMul(a.v, b.v))
Inv(a) == IF a.t = "n" THEN N ELSE IF a.t = "z" THEN X("0") ELSE IF IsZ0(a) THEN Z
          ELSE Num(a.t, NDiv("1", a.v))
Neg(a) == Mul(X("-1"), a)
Pow(a, b) ==
  IF "n" \in {a.t, b.t} \/ b.t = "z" THEN N
  ELSE IF IsZ0(b) THEN (IF a.t = "z" \/ IsZ0(a) THEN N ELSE Num(Kind(a, b), "1"))
  ELSE IF a.t = "z" THEN (IF NCmp(b.v, "0") = "gt" THEN Z ELSE X("0"))
  ELSE IF IsZ0(a) THEN (IF NCmp(b.v, "0") = "gt" THEN Num(Kind(a, b), "0") ELSE Z)
  ELSE IF Kind(a, b) = "x" /\ ~NIsInt(b.v) THEN AnyC
  ELSE IF NCmp(a.v, "0") = "lt" /\ ~NIsInt(b.v) THEN AnyC              \* not real
  ELSE IF Kind(a, b) = "f" /\ NCmp(NFn("abs", b.v), "9007199254740992") = "gt" THEN AnyC  \* exponent not exact
  ELSE IF NCmp(NMul(NFn("abs", b.v), Log2(Mag(a.v))), "3000") = "gt" THEN AnyC
  ELSE LET p == NPow(a.v, b.v) IN IF ~NIsReal(p) THEN AnyC ELSE Num(Kind(a, b), p)
Cmp(op, a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN AnyC ELSE B(Rel(op, a.v, b.v))

Apply(op, a) ==
  CASE op = "add" -> Add(a[1], a[2])
    [] op = "sub" -> Add(a[1], Neg(a[2]))
    [] op = "mul" -> Mul(a[1], a[2])
    [] op = "div" -> Mul(a[1], Inv(a[2]))
    [] op = "pow" -> Pow(a[1], a[2])
    [] op = "neg" -> Neg(a[1])
    [] op \in {"lt", "le", "eq", "gt", "ge"} -> Cmp(op, a[1], a[2])
    [] op = "abs" -> IF IsNum(a[1]) THEN Num(a[1].t, NFn("abs", a[1].v)) ELSE N
    [] op = "floor" -> IF IsNum(a[1]) THEN X(NFloor(a[1].v)) ELSE a[1]
    [] op = "sign" -> IF IsNum(a[1]) THEN X(SignOf(a[1].v)) ELSE AnyC
    [] op = "min" -> IF IsNum(a[1]) /\ IsNum(a[2]) THEN (IF NCmp(a[2].v, a[1].v) = "lt" THEN a[2] ELSE a[1]) ELSE AnyC
    [] op = "max" -> IF IsNum(a[1]) /\ IsNum(a[2]) THEN (IF NCmp(a[1].v, a[2].v) = "lt" THEN a[2] ELSE a[1]) ELSE AnyC
    [] op = "lit" -> IF a[1].t = "x" THEN a[1] ELSE AnyC

\* an outcome r equals the required constant w; floating-point results carry a rounding error
Huge == NPow("10", "307")
Matches(op, r, w) ==
  CASE w.t = "any" -> TRUE
    [] r.t = "o" -> TRUE                      \* stayed symbolic: its value is checked elsewhere
    [] w.t = "x" -> \/ r.t = "x" /\ r.v = w.v    \* lowest terms, positive denominator, not wrapped
                    \/ r.t = "f" /\ NClose(r.v, w.v, 15, "0")
    [] w.t = "f" -> \/ r.t \in {"f", "x"} /\ NClose(r.v, w.v, IF op = "pow" THEN 12 ELSE 14, NPow("10", "-290"))
                    \/ r.t \in {"z", "n"} /\ NCmp(NFn("abs", w.v), Huge) = "gt"
    [] OTHER -> r.t = w.t /\ r.v = w.v

\* a symbolic outcome is acceptable only where the constants do not decide it
MayStay(ev, w) ==
  \/ w.t \in {"any"}
  \/ ev.op \in {"lt", "le", "eq", "gt", "ge", "min", "max"} /\ \E q \in 1..Len(ev.a) : ev.a[q].t = "f"

\* refusing to compute
LeastInt(a) == a.t = "x" /\ NCmp(Mag(a.v), "9223372036854775807") # "lt"
MayRefuse(ev) ==
  \/ ev.op \in {"sub", "div"} /\ LeastInt(ev.a[2])    \* its negation or inverse has no representation
  \/ ev.op \in {"lt", "le", "eq", "gt", "ge", "min", "max"} /\ \E q \in 1..Len(ev.a) : ~IsNum(ev.a[q])
  \/ ev.op = "lit" /\ ev.a[1].t # "x"
  \/ /\ \A q \in 1..Len(ev.a) : IsNum(ev.a[q])
     /\ LET vs == [q \in 1..Len(ev.a) |-> ev.a[q].v] IN
        \/ ev.op \notin {"lt", "le", "eq", "gt", "ge", "min", "max", "lit", "floor", "sign"}
           /\ (\A q \in 1..Len(ev.a) : ev.a[q].t = "x")
           /\ MayExceed64([k |-> IF ev.op = "abs" THEN "fn" ELSE ev.op, v |-> "abs", a |-> <<>>], vs)
        \/ ev.op = "lit" /\ (\E q \in 1..Len(ev.a) : ~NFits64(ev.a[q].v) \/ LeastInt(ev.a[q]))
        \/ ev.op = "floor" /\ ev.a[1].t = "f" /\ ~NFits64(NFloor(ev.a[1].v))

Allowed(ev) ==
  IF ev.err # "" THEN ev.err = "arith" /\ MayRefuse(ev)
  ELSE LET w == Apply(ev.op, ev.a) IN
       /\ Matches(ev.op, ev.r, w)
       /\ ev.r.t = "o" => MayStay(ev, w)
       /\ ev.r.t = "x" => NFits64(ev.r.v)

Init == i \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ IF Allowed(Trace[i]) THEN TRUE
           ELSE PrintT("@@REJECT " \o ToJson([id |-> Trace[i].id, want |-> Apply(Trace[i].op, Trace[i].a)]))
Spec == Init /\ [][Next]_vars
============================================================================
