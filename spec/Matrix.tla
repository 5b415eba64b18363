------------------------------ MODULE Matrix ------------------------------
(***************************************************************************)
(* Matrices, quaternions and rotations as a state machine.                 *)
(*                                                                         *)
(* State: the objects the user holds (scalars, conditions, matrices,       *)
(* quaternions), each with its shape and the library expressions it is     *)
(* made of, together with the value of every library expression at each    *)
(* sample assignment.  One transition per API call.  The call is accepted  *)
(* only if                                                                 *)
(*   - its operands have shapes the operation is defined for and it        *)
(*     returned objects of the specified shape whose elements have the     *)
(*     specified value at every assignment, or                             *)
(*   - its operands do not fit and it was refused.                         *)
(* Operations whose result is fixed only up to a relation (LU factors,     *)
(* rotation logarithms, ...) are specified by that relation.               *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES sid, l,
          objs,     \* objects held so far: [t, r, c, ix]
          libn,     \* library nodes so far
          libv,     \* libv[s]: value of each library node at assignment s
          verdict,
          stats     \* <<elements compared, elements skipped because undefined>>
vars == <<sid, l, objs, libn, libv, verdict, stats>>

Sess == Trace[sid]
Samples == 1..Len(Sess.env)

Init ==
  /\ sid \in 1..Len(Trace)
  /\ l = 1
  /\ objs = <<>> /\ libn = <<>>
  /\ libv = [s \in Samples |-> <<>>]
  /\ verdict = "ok" /\ stats = <<0, 0>>

(* ------------------------------- values -------------------------------- *)
Obj(t, r, c, el) == [t |-> t, r |-> r, c |-> c, el |-> el]
S(x) == Obj("s", 1, 1, <<x>>)
M(r, c, el) == Obj("m", r, c, el)
Q(el) == Obj("q", 4, 1, el)
Facts(ns) == Obj("n", Len(ns), 1, Tab(Len(ns), LAMBDA i : ToString(ns[i])))
Nothing == Obj("x", 0, 0, <<>>)

Build(r, c, F(_, _)) == M(r, c, Tab(r * c, LAMBDA n : F(((n - 1) \div c) + 1, ((n - 1) % c) + 1)))
At(m, i, j) == m.el[(i - 1) * m.c + j]
Row(m, i) == SubSeq(m.el, (i - 1) * m.c + 1, i * m.c)
Col(m, j) == Tab(m.r, LAMBDA i : At(m, i, j))
Map(m, F(_)) == Obj(m.t, m.r, m.c, Tab(Len(m.el), LAMBDA i : F(m.el[i])))
ZipM(a, b, F(_, _)) == M(a.r, a.c, Tab(Len(a.el), LAMBDA i : F(a.el[i], b.el[i])))
T(m) == Build(m.c, m.r, LAMBDA i, j : At(m, j, i))
Dot(xs, ys) == SumSeq(Tab(Len(xs), LAMBDA k : NMul(xs[k], ys[k])))
MatMul(a, b) == Build(a.r, b.c, LAMBDA i, j : Dot(Row(a, i), Col(b, j)))
Eye(r, c) == Build(r, c, LAMBDA i, j : IF i = j THEN "1" ELSE "0")
Vec(el) == M(Len(el), 1, el)
Norm2(el) == SumSeq(Tab(Len(el), LAMBDA i : NMul(el[i], el[i])))
Norm(el) == NPow(Norm2(el), "1/2")
Minor(m, j) == Build(m.r - 1, m.c - 1, LAMBDA i, k : At(m, i + 1, IF k < j THEN k ELSE k + 1))
RECURSIVE Det(_)
Det(m) == IF m.r = 1 THEN m.el[1]
          ELSE SumSeq(Tab(m.c, LAMBDA j :
                 IF m.el[j] = "0" THEN "0"
                 ELSE NMul(IF j % 2 = 1 THEN m.el[j] ELSE NNeg(m.el[j]), Det(Minor(m, j)))))
Defined(el) == \A i \in 1..Len(el) : el[i] # Undef

\* block placement: operands ms at offsets
SumTo(f, n) == FoldLeft(LAMBDA acc, i : acc + f[i], 0, [i \in 1..n |-> i])
Rs(ms) == [i \in 1..Len(ms) |-> ms[i].r]
Cs(ms) == [i \in 1..Len(ms) |-> ms[i].c]
Owner(f, n, k) == CHOOSE b \in 1..n : SumTo(f, b - 1) < k /\ k <= SumTo(f, b)
VStack(ms) == LET n == Len(ms) rs == Rs(ms) IN
  Build(SumTo(rs, n), ms[1].c, LAMBDA i, j : LET b == Owner(rs, n, i) IN At(ms[b], i - SumTo(rs, b - 1), j))
HStack(ms) == LET n == Len(ms) cs == Cs(ms) IN
  Build(ms[1].r, SumTo(cs, n), LAMBDA i, j : LET b == Owner(cs, n, j) IN At(ms[b], i, j - SumTo(cs, b - 1)))
Diag(ms) == LET n == Len(ms) rs == Rs(ms) cs == Cs(ms) IN
  Build(SumTo(rs, n), SumTo(cs, n), LAMBDA i, j :
    LET b == Owner(rs, n, i) d == Owner(cs, n, j) IN
    IF b = d THEN At(ms[b], i - SumTo(rs, b - 1), j - SumTo(cs, b - 1)) ELSE "0")

(* ------------------ selection of rows and columns (Python) --------------- *)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
\* p = <<has start, start, has stop, stop, step>>; the 1-based positions selected out of n
Slice(n, p) ==
  LET st == p[5]
      lo == IF st > 0 THEN 0 ELSE -1
      up == IF st > 0 THEN n ELSE n - 1
      Fix(x) == IF x < 0 THEN MaxI(x + n, lo) ELSE MinI(x, up)
      a == IF p[1] = 1 THEN Fix(p[2]) ELSE IF st > 0 THEN lo ELSE up
      b == IF p[3] = 1 THEN Fix(p[4]) ELSE IF st > 0 THEN up ELSE lo
      len == IF st > 0 THEN (IF a < b THEN (b - a - 1) \div st + 1 ELSE 0)
             ELSE (IF b < a THEN (a - b - 1) \div (0 - st) + 1 ELSE 0)
  IN [k \in 1..len |-> a + (k - 1) * st + 1]
InRange(n, i) == i < n /\ i >= 0 - n
Wrap(n, i) == IF i < 0 THEN n + i + 1 ELSE i + 1
Pick(m, is, js) == Build(Len(is), Len(js), LAMBDA i, j : At(m, is[i], js[j]))

(* ------------------------------ quaternions ------------------------------ *)
\* <<w, x, y, z>>
QMul(a, b) ==
  LET P(i, j) == NMul(a[i], b[j]) IN
  << SumSeq(<<P(1, 1), NNeg(P(2, 2)), NNeg(P(3, 3)), NNeg(P(4, 4))>>),
     SumSeq(<<P(1, 2), P(2, 1), P(3, 4), NNeg(P(4, 3))>>),
     SumSeq(<<P(1, 3), P(3, 1), P(4, 2), NNeg(P(2, 4))>>),
     SumSeq(<<P(1, 4), P(4, 1), P(2, 3), NNeg(P(3, 2))>>) >>
QConj(q) == <<q[1], NNeg(q[2]), NNeg(q[3]), NNeg(q[4])>>
QNeg(q) == Tab(4, LAMBDA i : NNeg(q[i]))
QVec(q) == <<q[2], q[3], q[4]>>
Rotate(q, v) == QVec(QMul(QMul(q, <<"0", v[1], v[2], v[3]>>), QConj(q)))
Unit(k, n) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
\* rotation by |v| about v
ExpQ(v) ==
  With(Norm(v), LAMBDA a :
    IF a = "0" \/ NCmp(a, "0") = "eq" THEN <<"1", "0", "0", "0">>
    ELSE With(NDiv(NFn("sin", NDiv(a, "2")), a), LAMBDA k :
           <<NFn("cos", NDiv(a, "2")), NMul(v[1], k), NMul(v[2], k), NMul(v[3], k)>>))
\* rotation vector of a quaternion of any positive norm, angle in [0, pi]
LogQ(q) ==
  With(Norm(QVec(q)), LAMBDA n :
    IF NCmp(n, "0") = "eq" THEN <<"0", "0", "0">>
    ELSE With(NMul(IF NCmp(q[1], "0") = "lt" THEN "-2" ELSE "2", NDiv(NAtan2(n, NFn("abs", q[1])), n)), LAMBDA k :
           Tab(3, LAMBDA i : NMul(k, q[i + 1]))))
IsUnit(q) == NClose(Norm2(q), "1", 20, "1")
RotMat(q) == T(M(3, 3, Rotate(q, Unit(1, 3)) \o Rotate(q, Unit(2, 3)) \o Rotate(q, Unit(3, 3))))
IsRotation(m) == /\ Defined(m.el)
                 /\ \A i, j \in 1..3 : NClose(Dot(Row(m, i), Row(m, j)), IF i = j THEN "1" ELSE "0", 20, "1")
                 /\ NClose(Det(m), "1", 20, "1")
\* limit of the difference quotients of vector function F at direction k of point x
Shift(x, k, h) == [i \in 1..Len(x) |-> IF i = k THEN NAdd(x[i], h) ELSE x[i]]
DirDeriv(F(_), x, k) ==
  With(F(Shift(x, k, NNeg(HStep))), LAMBDA fm :
  With(F(x), LAMBDA f0 :
  With(F(Shift(x, k, HStep)), LAMBDA fp :
    Tab(Len(f0), LAMBDA i : Quotient(fm[i], f0[i], fp[i])))))
FirstPrinciples(F(_), x, n) ==
  With(Tab(n, LAMBDA k : DirDeriv(F, x, k)), LAMBDA cols :
    M(Len(cols[1]), n, T(M(n, Len(cols[1]), FlattenSeq(cols))).el))
LeftJac(w) == With(QConj(ExpQ(w)), LAMBDA c :
                FirstPrinciples(LAMBDA u : LogQ(QMul(ExpQ(u), c)), w, 3))

(* ------------------- which operand shapes are acceptable ------------------ *)
IsM(o) == o.t = "m"
IsVec(o) == IsM(o) /\ (o.r = 1 \/ o.c = 1)
Is3(o) == IsM(o) /\ o.r = 3 /\ o.c = 1
\* "ok", "refuse", or "any" where nothing is promised
Legal(ev, A) ==
  LET OK(b) == IF b THEN "ok" ELSE "refuse" IN
  CASE ev.k \in {"leaf", "info", "iter", "T", "vec", "neg", "unary", "tolist", "flat", "same", "symbols1",
                 "mulms", "divms", "where2", "cse", "q", "qname", "qid", "qmul", "qconj", "qinv", "qunit", "qnorm",
                 "qsqnorm", "qrotmat", "qlist", "qwxyz", "qxyzw", "qel", "qxang", "qsubs", "q_to_rv", "q_to_aa",
                 "rrd", "rlcd", "aa3", "rv3", "subs", "diff"} -> "ok"
    [] ev.k \in {"norm", "sqnorm"} -> IF Len(A[1].el) = 0 THEN "any" ELSE "ok"
    [] ev.k = "mat" -> OK(ev.p[1] > 0 /\ ev.p[2] > 0)
    [] ev.k = "ragged" -> "refuse"
    [] ev.k \in {"eye", "zeros", "symbols"} -> OK(ev.p[1] > 0 /\ ev.p[2] > 0)
    [] ev.k = "vstack" -> IF Len(A) = 0 THEN "refuse"
                          ELSE IF ev.v = "rows" /\ A[1].c = 0 THEN "refuse"
                          ELSE OK(\A i \in 1..Len(A) : A[i].c = A[1].c)
    [] ev.k = "hstack" -> IF Len(A) = 0 THEN "refuse" ELSE OK(\A i \in 1..Len(A) : A[i].r = A[1].r)
    [] ev.k \in {"diag", "diags"} -> OK(Len(A) > 0)
    [] ev.k = "get" -> OK(InRange(A[1].r, ev.p[1]) /\ InRange(A[1].c, ev.p[2]))
    [] ev.k = "row" -> OK(InRange(A[1].r, ev.p[1]))
    [] ev.k = "rowslice" -> OK(ev.p[5] # 0)
    [] ev.k = "slice2" -> OK(ev.p[5] # 0 /\ ev.p[10] # 0)
    [] ev.k = "rowcols" -> IF InRange(A[1].r, ev.p[1]) THEN OK(ev.p[6] # 0)
                           ELSE IF ev.p[6] = 0 \/ Len(Slice(A[1].c, SubSeq(ev.p, 2, 6))) > 0 THEN "refuse" ELSE "any"
    [] ev.k = "rowscol" -> IF InRange(A[1].c, ev.p[1]) THEN OK(ev.p[6] # 0)
                           ELSE IF ev.p[6] = 0 \/ Len(Slice(A[1].r, SubSeq(ev.p, 2, 6))) > 0 THEN "refuse" ELSE "any"
    [] ev.k = "reshape" -> OK(ev.p[1] >= 0 /\ ev.p[2] >= 0 /\ ev.p[1] * ev.p[2] = A[1].r * A[1].c)
    [] ev.k \in {"add", "sub"} -> OK(A[1].r = A[2].r /\ A[1].c = A[2].c)
    [] ev.k = "where" -> OK(A[2].r = A[3].r /\ A[2].c = A[3].c)
    [] ev.k = "mul" -> OK(A[1].c = A[2].r)
    [] ev.k = "det" -> IF A[1].r = 0 /\ A[1].c = 0 THEN "any" ELSE OK(A[1].r = A[1].c)
    [] ev.k = "lu" -> IF Len(A[1].el) = 0 \/ A[1].r > A[1].c THEN "any" ELSE "ok"
    [] ev.k = "jac" -> IF Len(A[1].el) = 0 \/ Len(A[2].el) = 0 THEN "any" ELSE OK(IsVec(A[1]) /\ IsVec(A[2]))
    [] ev.k = "eval" -> IF \E i \in 1..Len(A[1].el) : A[1].el[i] = Undef \/ ~NIsReal(A[1].el[i]) THEN "any" ELSE "ok"
    [] ev.k = "qfrom" -> OK(Len(A[1].el) = 4 /\ IsVec(A[1]))
    [] ev.k \in {"qrotate"} -> OK(Is3(A[2]))
    [] ev.k \in {"rv", "ljac", "iljac"} -> OK(Is3(A[1]))
    [] ev.k = "aa" -> OK(Is3(A[2]))
    [] ev.k = "fromR" -> OK(IsM(A[1]) /\ A[1].r = 3 /\ A[1].c = 3)
    [] OTHER -> "any"

(* ---------------- results specified by their value ------------------------ *)
\* operation ev on operand values A at assignment s; ix[i] are the library nodes of operand i
Unary(f, x) == CASE f = "neg" -> NNeg(x) [] f = "sq" -> NMul(x, x) [] f = "inc" -> NAdd(x, "1")
                 [] f = "twice" -> NMul(x, "2") [] OTHER -> NFn(f, x)
Perhaps(q, b) == IF b THEN q ELSE Tab(Len(q), LAMBDA i : Undef)
HasEps(ev) == ev.p[1] = 1
Expect(ev, A, s, ix) ==
  LET E == Sess.env[s]
      R1 == <<A[1]>>
  IN CASE ev.k = "leaf" -> With(ValueAt(ev.def, E, Len(ev.def)), LAMBDA x :
                             <<IF ev.v = "b" THEN Obj("b", 1, 1, <<x>>) ELSE S(x)>>)
    [] ev.k = "mat" -> <<M(ev.p[1], ev.p[2], [i \in 1..Len(A) |-> A[i].el[1]])>>
    [] ev.k = "symbols" -> <<Build(ev.p[1], ev.p[2], LAMBDA i, j :
                              E[ev.v \o "_" \o ToString(i - 1) \o "_" \o ToString(j - 1)])>>
    [] ev.k = "eye" -> <<Eye(ev.p[1], ev.p[2])>>
    [] ev.k = "zeros" -> <<Build(ev.p[1], ev.p[2], LAMBDA i, j : "0")>>
    [] ev.k = "vstack" -> <<VStack(A)>>
    [] ev.k = "hstack" -> <<HStack(A)>>
    [] ev.k = "diag" -> <<Diag(A)>>
    [] ev.k = "diags" -> <<Build(Len(A), Len(A), LAMBDA i, j : IF i = j THEN A[i].el[1] ELSE "0")>>
    [] ev.k = "info" -> <<Facts(<<A[1].r, A[1].c, A[1].r * A[1].c, IF A[1].r * A[1].c = 0 THEN 1 ELSE 0, A[1].r>>)>>
    [] ev.k = "get" -> <<S(At(A[1], Wrap(A[1].r, ev.p[1]), Wrap(A[1].c, ev.p[2])))>>
    [] ev.k = "row" -> LET i == Wrap(A[1].r, ev.p[1]) IN
                       <<IF A[1].c = 1 THEN S(A[1].el[i]) ELSE M(1, A[1].c, Row(A[1], i))>>
    [] ev.k = "rowslice" -> <<Pick(A[1], Slice(A[1].r, ev.p), [j \in 1..A[1].c |-> j])>>
    [] ev.k = "slice2" -> <<Pick(A[1], Slice(A[1].r, SubSeq(ev.p, 1, 5)), Slice(A[1].c, SubSeq(ev.p, 6, 10)))>>
    [] ev.k = "rowcols" -> <<Pick(A[1], <<Wrap(A[1].r, ev.p[1])>>, Slice(A[1].c, SubSeq(ev.p, 2, 6)))>>
    [] ev.k = "rowscol" -> <<Pick(A[1], Slice(A[1].r, SubSeq(ev.p, 2, 6)), <<Wrap(A[1].c, ev.p[1])>>)>>
    [] ev.k = "iter" -> [i \in 1..A[1].r |-> IF A[1].c = 1 THEN S(A[1].el[i]) ELSE M(1, A[1].c, Row(A[1], i))]
    [] ev.k \in {"same", "tolist", "cse"} -> R1
    [] ev.k = "eval" -> <<M(A[1].r, A[1].c, A[1].el)>>
    [] ev.k = "flat" -> <<M(1, Len(A[1].el), A[1].el)>>
    [] ev.k = "T" -> <<T(A[1])>>
    [] ev.k = "reshape" -> <<M(ev.p[1], ev.p[2], A[1].el)>>
    [] ev.k = "vec" -> <<M(Len(A[1].el), 1, T(A[1]).el)>>
    [] ev.k = "neg" -> <<Map(A[1], NNeg)>>
    [] ev.k = "add" -> <<ZipM(A[1], A[2], NAdd)>>
    [] ev.k = "sub" -> <<ZipM(A[1], A[2], NSub)>>
    [] ev.k = "mul" -> <<MatMul(A[1], A[2])>>
    [] ev.k = "mulms" -> <<Map(A[1], LAMBDA x : NMul(x, A[2].el[1]))>>
    [] ev.k = "divms" -> <<Map(A[1], LAMBDA x : NDiv(x, A[2].el[1]))>>
    [] ev.k = "sqnorm" -> <<S(Norm2(A[1].el))>>
    [] ev.k = "norm" -> <<S(Norm(A[1].el))>>
    [] ev.k = "det" -> <<S(Det(A[1]))>>
    [] ev.k = "where" -> <<ZipM(A[2], A[3], LAMBDA x, y : Select(A[1].el[1], x, y))>>
    [] ev.k = "unary" -> <<Map(A[1], LAMBDA x : Unary(ev.v, x))>>
    [] ev.k = "diff" -> <<M(A[1].r, A[1].c, Tab(Len(ix[1]), LAMBDA i :
                           DerivAt(libn, E, ix[1][i], libn[ix[2][1]].v, ev.p[1])))>>
    [] ev.k = "jac" -> <<Build(Len(A[1].el), Len(A[2].el), LAMBDA i, j :
                           DerivAt(libn, E, ix[1][i], libn[ix[2][j]].v, 1))>>
    [] ev.k \in {"subs", "qsubs"} ->
         <<Obj(A[1].t, A[1].r, A[1].c, Tab(Len(ix[1]), LAMBDA i :
             IF A[3].el[1] = Undef THEN Undef ELSE ValueAt(libn, Bind(E, libn[ix[2][1]].v, A[3].el[1]), ix[1][i])))>>
    \* quaternions
    [] ev.k = "q" -> <<Q([i \in 1..4 |-> A[i].el[1]])>>
    [] ev.k = "qid" -> <<Q(<<"1", "0", "0", "0">>)>>
    [] ev.k = "qname" -> <<Q(<<E[ev.v \o "_w"], E[ev.v \o "_x"], E[ev.v \o "_y"], E[ev.v \o "_z"]>>)>>
    [] ev.k = "qfrom" -> <<Q(IF ev.v = "wxyz" THEN A[1].el ELSE <<A[1].el[4], A[1].el[1], A[1].el[2], A[1].el[3]>>)>>
    [] ev.k = "qmul" -> <<Q(QMul(A[1].el, A[2].el))>>
    [] ev.k = "qconj" -> <<Q(QConj(A[1].el))>>
    [] ev.k = "qinv" -> With(Norm2(A[1].el), LAMBDA n : <<Q(Tab(4, LAMBDA i : NDiv(QConj(A[1].el)[i], n)))>>)
    [] ev.k = "qunit" -> With(Norm(A[1].el), LAMBDA n : <<Q(Tab(4, LAMBDA i : NDiv(A[1].el[i], n)))>>)
    [] ev.k = "qnorm" -> <<S(Norm(A[1].el))>>
    [] ev.k = "qsqnorm" -> <<S(Norm2(A[1].el))>>
    [] ev.k \in {"qlist"} -> <<M(1, 4, A[1].el)>>
    [] ev.k \in {"qwxyz"} -> <<Vec(A[1].el)>>
    [] ev.k = "qxyzw" -> <<Vec(<<A[1].el[2], A[1].el[3], A[1].el[4], A[1].el[1]>>)>>
    [] ev.k = "qel" -> [i \in 1..4 |-> S(A[1].el[i])]
    [] ev.k = "qrotmat" -> <<M(3, 3, Perhaps(RotMat(A[1].el).el, IsUnit(A[1].el)))>>
    [] ev.k = "qrotate" -> <<Vec(Perhaps(Rotate(A[1].el, A[2].el), IsUnit(A[1].el)))>>
    [] ev.k = "aa3" -> With(NDiv(A[1].el[1], "2"), LAMBDA h : With(NFn("sin", h), LAMBDA k :
                         <<Q(<<NFn("cos", h), NMul(k, A[2].el[1]), NMul(k, A[3].el[1]), NMul(k, A[4].el[1])>>)>>))
    [] ev.k = "aa" -> With(NDiv(A[1].el[1], "2"), LAMBDA h : With(NFn("sin", h), LAMBDA k :
                        <<Q(<<NFn("cos", h), NMul(k, A[2].el[1]), NMul(k, A[2].el[2]), NMul(k, A[2].el[3])>>)>>))
    [] ev.k = "qxang" -> <<Q(ExpQ(CASE ev.v = "x" -> <<A[1].el[1], "0", "0">>
                                    [] ev.v = "y" -> <<"0", A[1].el[1], "0">>
                                    [] ev.v = "z" -> <<"0", "0", A[1].el[1]>>))>>
    [] ev.k = "rrd" -> <<FirstPrinciples(LAMBDA v : QMul(A[1].el, ExpQ(v)), <<"0", "0", "0">>, 3)>>
    [] ev.k = "rlcd" -> <<IF IsUnit(A[1].el)
                          THEN FirstPrinciples(LAMBDA p : LogQ(QMul(QConj(A[1].el), p)), A[1].el, 4)
                          ELSE M(3, 4, Tab(12, LAMBDA i : Undef))>>
    [] OTHER -> <<>>

(* ---------------- results specified by a relation -------------------------- *)
Relational == {"lu", "rv", "rv3", "q_to_rv", "q_to_aa", "fromR", "ljac", "iljac"}
Shape(ev, A) ==       \* <<t, r, c>> of each result
  CASE ev.k = "lu" -> <<<<"m", A[1].r, A[1].r>>, <<"m", A[1].r, A[1].r>>, <<"m", A[1].r, A[1].c>>, <<"m", A[1].c, A[1].c>>>>
    [] ev.k \in {"rv", "rv3", "fromR"} -> <<<<"q", 4, 1>>>>
    [] ev.k = "q_to_rv" -> <<<<"m", 3, 1>>>>
    [] ev.k = "q_to_aa" -> <<<<"s", 1, 1>>, <<"m", 3, 1>>>>
    [] ev.k \in {"ljac", "iljac"} -> <<<<"m", 3, 3>>>>
Close(x, y) == NClose(x, y, 15, "1")
CloseAll(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : xs[i] # Undef /\ ys[i] # Undef /\ Close(xs[i], ys[i])
Within(xs, ys, tol) == \A i \in 1..Len(xs) : xs[i] # Undef /\ ys[i] # Undef
                                             /\ NCmp(NDist(xs[i], ys[i]), NAdd(tol, "1/1000000000000000")) # "gt"
IsPerm(m) == /\ \A i \in 1..Len(m.el) : m.el[i] \in {"0", "1"}
             /\ \A i \in 1..m.r : SumSeq(Row(m, i)) = "1" /\ SumSeq(Col(m, i)) = "1"
LowerUnit(m) == \A i, j \in 1..m.r : /\ i = j => At(m, i, j) = "1"
                                     /\ i < j => At(m, i, j) = "0"
Upper(m) == \A i \in 1..m.r : \A j \in 1..m.c : j < i => At(m, i, j) = "0"
\* epsilon of a small-angle branch: last operand, when given; and the distance it is compared with
EpsOf(ev, A) == IF HasEps(ev) THEN A[Len(A)].el[1] ELSE "-1"
Small(ev, A, a) == HasEps(ev) /\ NCmp(a, EpsOf(ev, A)) # "gt"
AtZero(a) == NCmp(a, "0") = "eq"
Cube(a) == NMul(a, NMul(a, a))
SameRotation(p, q, tol) == Within(p, q, tol) \/ Within(p, QNeg(q), tol)

\* "ok", "skip" (nothing promised here) or "bad"
Related(ev, A, B) ==
  LET Judge(b) == IF b THEN "ok" ELSE "bad" IN
  CASE ev.k = "lu" ->
         IF ~Defined(A[1].el) THEN "skip"
         ELSE IF ~(IsPerm(B[1]) /\ IsPerm(B[4])) THEN "bad"
         ELSE IF ~Defined(B[2].el) \/ ~Defined(B[3].el) THEN "skip"      \* a pivot vanished here
         ELSE Judge(LowerUnit(B[2]) /\ Upper(B[3])
                    /\ CloseAll(MatMul(MatMul(B[1], B[2]), MatMul(B[3], B[4])).el, A[1].el))
    [] ev.k \in {"rv", "rv3"} ->
         LET v == IF ev.k = "rv" THEN A[1].el ELSE <<A[1].el[1], A[2].el[1], A[3].el[1]>> IN
         IF ~Defined(v) THEN "skip"
         ELSE With(Norm(v), LAMBDA a :
                IF AtZero(a) /\ ~HasEps(ev) THEN "skip"
                ELSE IF ~Defined(B[1].el) THEN "bad"
                ELSE Judge(IsUnit(B[1].el) /\ Within(B[1].el, ExpQ(v), IF Small(ev, A, a) THEN Cube(a) ELSE "0")))
    [] ev.k = "q_to_rv" ->
         IF ~Defined(A[1].el) \/ ~IsUnit(A[1].el) THEN "skip"
         ELSE With(Norm(QVec(A[1].el)), LAMBDA n :
                IF AtZero(n) /\ ~HasEps(ev) THEN "skip"
                ELSE IF ~Defined(B[1].el) THEN "bad"
                ELSE Judge(/\ NCmp(Norm(B[1].el), NAdd(NConst("pi"), "1/1000000000000000")) # "gt"
                           /\ SameRotation(ExpQ(B[1].el), A[1].el, IF Small(ev, A, n) THEN Cube(n) ELSE "0")))
    [] ev.k = "q_to_aa" ->
         IF ~Defined(A[1].el) \/ ~IsUnit(A[1].el) THEN "skip"
         ELSE With(Norm(QVec(A[1].el)), LAMBDA n :
                IF AtZero(n) /\ ~HasEps(ev) THEN "skip"
                ELSE IF ~Defined(B[1].el) \/ ~Defined(B[2].el) THEN "bad"
                ELSE LET g == B[1].el[1] IN
                     Judge(/\ NCmp(g, "0") # "lt" /\ NCmp(g, NAdd(NConst("pi"), "1/1000000000000000")) # "gt"
                           /\ Close(Norm2(B[2].el), "1")
                           /\ SameRotation(ExpQ(Tab(3, LAMBDA i : NMul(g, B[2].el[i]))), A[1].el,
                                           IF Small(ev, A, n) THEN NMul("2", n) ELSE "0")))
    [] ev.k = "fromR" ->
         IF ~IsRotation(A[1]) THEN "skip"
         ELSE IF ~Defined(B[1].el) THEN "bad"
         ELSE Judge(Close(Norm2(B[1].el), "1") /\ CloseAll(RotMat(B[1].el).el, A[1].el))
    [] ev.k \in {"ljac", "iljac"} ->
         IF ~Defined(A[1].el) THEN "skip"
         ELSE With(Norm(A[1].el), LAMBDA a :
                IF (AtZero(a) /\ ~HasEps(ev)) \/ NCmp(a, "3") = "gt" THEN "skip"
                ELSE IF ~Defined(B[1].el) THEN "bad"
                ELSE With(LeftJac(A[1].el), LAMBDA J :
                       LET tol == NAdd("1/1000000000000", IF Small(ev, A, a) THEN Cube(a) ELSE "0") IN
                       IF ev.k = "ljac" THEN Judge(Within(B[1].el, J.el, tol))
                       ELSE Judge(Within(MatMul(J, B[1]).el, Eye(3, 3).el, NMul("4", tol)))))

(* ------------------------------ transitions -------------------------------- *)
IsBool(v) == v \in {"T", "F"}
Agree(x, y, ev) ==
  IF x = Undef THEN TRUE
  ELSE IF y = Undef THEN ev.udef = "ok"
  ELSE IF IsBool(x) \/ IsBool(y) THEN x = y
  ELSE NClose(x, y, ev.digits, "1")

SameShape(exp, res) ==
  /\ Len(exp) = Len(res)
  /\ \A i \in 1..Len(exp) : exp[i].t = res[i].t /\ exp[i].r = res[i].r /\ exp[i].c = res[i].c
                            /\ Len(exp[i].el) = Len(res[i].el)

\* operand objects with their values at s
Value(o, s) == Obj(o.t, o.r, o.c, [i \in 1..Len(o.ix) |-> libv[s][o.ix[i]]])
Result(o, v) == Obj(o.t, o.r, o.c, IF o.t = "n" THEN o.ns ELSE [i \in 1..Len(o.ix) |-> v[o.ix[i]]])

Reject(what, s, want, got) ==
  /\ verdict' = "rejected"
  /\ PrintT("@@REJECT " \o ToJson([id |-> Sess.id, l |-> l, what |-> what, sample |-> s, want |-> want, got |-> got]))

Judgement(ev, libv2) ==    \* per sample: "ok", "skip", or <<what, want, got>>
  Tab(Len(Sess.env), LAMBDA s :
    With([i \in 1..Len(ev.a) |-> Value(objs[ev.a[i]], s)], LAMBDA A :
    With([i \in 1..Len(ev.res) |-> Result(ev.res[i], libv2[s])], LAMBDA B :
      IF Legal(ev, A) = "refuse" THEN [r |-> "bad", what |-> "should have been refused", want |-> <<>>, got |-> B]
      ELSE IF Legal(ev, A) = "any" THEN [r |-> "skip", what |-> "", want |-> <<>>, got |-> <<>>]
      ELSE IF ev.k \in Relational THEN
        IF Shape(ev, A) # [i \in 1..Len(B) |-> <<B[i].t, B[i].r, B[i].c>>]
        THEN [r |-> "bad", what |-> "shape", want |-> <<>>, got |-> B]
        ELSE With(Related(ev, A, B), LAMBDA r : [r |-> r, what |-> "relation", want |-> A, got |-> B])
      ELSE With(Expect(ev, A, s, [i \in 1..Len(ev.a) |-> objs[ev.a[i]].ix]), LAMBDA X :
        IF ~SameShape(X, B) THEN [r |-> "bad", what |-> "shape", want |-> X, got |-> B]
        ELSE IF \E i \in 1..Len(X) : \E j \in 1..Len(X[i].el) : ~Agree(X[i].el[j], B[i].el[j], ev)
             THEN [r |-> "bad", what |-> "value", want |-> X, got |-> B]
        ELSE [r |-> IF \E i \in 1..Len(X) : \E j \in 1..Len(X[i].el) : X[i].el[j] # Undef /\ B[i].el[j] # Undef
                    THEN "ok" ELSE "skip", what |-> "", want |-> <<>>, got |-> <<>>]))))

Keep(ev) == [i \in 1..Len(ev.res) |-> [t |-> ev.res[i].t, r |-> ev.res[i].r, c |-> ev.res[i].c, ix |-> ev.res[i].ix]]

Returned(ev) ==
  \E libn2 \in {libn \o ev.new} :
  \E libv2 \in {Tab(Len(Sess.env), LAMBDA s : EvalUpTo(libn2, Sess.env[s], libv[s], Len(libn2)))} :
  \E J \in {Judgement(ev, libv2)} :
  LET bad == {s \in Samples : J[s].r = "bad"} IN
  /\ libn' = libn2 /\ libv' = libv2
  /\ objs' = objs \o Keep(ev)
  /\ stats' = <<stats[1] + Cardinality({s \in Samples : J[s].r = "ok"}),
                stats[2] + Cardinality({s \in Samples : J[s].r = "skip"})>>
  /\ IF bad = {} THEN verdict' = "ok"
     ELSE LET s == CHOOSE s \in bad : \A t \in bad : s <= t IN Reject(J[s].what, s, J[s].want, J[s].got)

\* an undefined operand element may be refused by arithmetic (comparisons with infinity, ...)
Raised(ev) ==
  /\ UNCHANGED <<libn, libv>>
  /\ objs' = objs \o [i \in 1..ev.n |-> [t |-> "x", r |-> 0, c |-> 0, ix |-> <<>>]]
  /\ stats' = <<stats[1], stats[2] + 1>>
  /\ LET A == [i \in 1..Len(ev.a) |-> Value(objs[ev.a[i]], 1)]
         undef == \E i \in 1..Len(A) : \E j \in 1..Len(A[i].el) : A[i].el[j] = Undef
     IN IF ev.err = "skip" \/ Legal(ev, A) # "ok" \/ (undef /\ ev.err = "arith") THEN verdict' = "ok"
        ELSE IF ev.err = "arith" /\ ev.k \notin Relational
                /\ \A s \in Samples : \E i \in 1..Len(Expect(ev, [q \in 1..Len(ev.a) |-> Value(objs[ev.a[q]], s)], s,
                                                            [q \in 1..Len(ev.a) |-> objs[ev.a[q]].ix])) :
                     ~Defined(Expect(ev, [q \in 1..Len(ev.a) |-> Value(objs[ev.a[q]], s)], s,
                                     [q \in 1..Len(ev.a) |-> objs[ev.a[q]].ix])[i].el)
             THEN verdict' = "ok"
        ELSE Reject("was refused", 0, <<>>, <<Obj(ev.err, 0, 0, <<>>)>>)

Next ==
  /\ verdict = "ok"
  /\ l <= Len(Sess.ev)
  /\ l' = l + 1 /\ sid' = sid
  /\ LET ev == Sess.ev[l] IN IF ev.err = "" THEN Returned(ev) ELSE Raised(ev)
  /\ IF l = Len(Sess.ev) \/ verdict' = "rejected"
     THEN PrintT("@@DONE " \o ToJson([id |-> Sess.id, steps |-> l, cmp |-> stats'[1], skip |-> stats'[2]]))
     ELSE TRUE

Spec == Init /\ [][Next]_vars
=============================================================================
