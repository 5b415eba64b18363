------------------------------- MODULE Reader ------------------------------
(* C18: reading printed expressions back.                                    *)
(*                                                                           *)
(* A reader that knows only the usual rules of precedence consumes the text  *)
(* of an expression token by token (a pushdown automaton), and the lines of  *)
(* its tree form.  What has been read must be the expression: the text has   *)
(* the same value whatever the variables, functions and other non-arithmetic *)
(* operators stand for, and the tree has the same shape.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Num

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pid, pos, stk, ns, phase
vars == <<pid, pos, stk, ns, phase>>

P == Trace[pid]

Init == /\ pid \in 1..Len(Trace)
        /\ pos = 1 /\ stk = <<>> /\ ns = <<>>
        /\ phase = "text"

With(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE

(* -------------------------------- grammar ------------------------------- *)
\* precedence: relations, sums, products, sign, powers; powers associate to the right
Prec(op) == CASE op \in {"<", "<=", "=="} -> 1 [] op \in {"+", "-"} -> 2 [] op \in {"*", "/"} -> 3 [] op = "**" -> 5
SignPrec == 4
Node(k, v, a) == [k |-> k, v |-> v, a |-> a]
Item(t, v, n) == [t |-> t, v |-> v, n |-> n]
Operand(s) == s # <<>> /\ s[Len(s)].t = "e"
BinNode(op, a, b) ==
  CASE op = "+" -> Node("add", "", <<a, b>>)
    [] op = "-" -> Node("sub", "", <<a, b>>)
    [] op = "*" -> Node("mul", "", <<a, b>>)
    [] op = "/" -> Node("div", "", <<a, b>>)
    [] op = "**" -> Node("pow", "", <<a, b>>)
    [] OTHER -> Node("call", op, <<a, b>>)

\* complete every operator that binds tighter than what follows
RECURSIVE Reduce(_, _, _)
Reduce(s, t, p) ==
  LET L == Len(s) IN
  IF L >= 2 /\ s[L].t = "e" /\ s[L - 1].t = "neg" /\ SignPrec >= p
  THEN Reduce(Append(SubSeq(s, 1, L - 2), Item("e", "", Len(t) + 1)), Append(t, Node("neg", "", <<s[L].n>>)), p)
  ELSE IF L >= 3 /\ s[L].t = "e" /\ s[L - 1].t = "bin" /\ s[L - 2].t = "e"
          /\ (Prec(s[L - 1].v) > p \/ (Prec(s[L - 1].v) = p /\ p # 5))
  THEN Reduce(Append(SubSeq(s, 1, L - 3), Item("e", "", Len(t) + 1)),
              Append(t, BinNode(s[L - 1].v, s[L - 2].n, s[L].n)), p)
  ELSE <<s, t>>

\* position of the innermost open frame
Frame(s) == LET S == {i \in 1..Len(s) : s[i].t \in {"group", "call", "list", "index"}}
            IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* the operands in the innermost frame: operand, comma, operand, ...
Fields(s, f) == [i \in 1..((Len(s) - f + 1) \div 2) |-> s[f + 2 * i - 1].n]
WellFormed(s, f) == \A i \in (f + 1)..Len(s) : s[i].t = (IF (i - f) % 2 = 1 THEN "e" ELSE "comma")
Close(s, t, f) ==
  LET fr == s[f]
      below == SubSeq(s, 1, f - 1)
      a == Fields(s, f)
      new == Append(below, Item("e", "", Len(t) + 1))
  IN IF ~WellFormed(s, f) THEN <<>>
     ELSE CASE fr.t = "group" -> IF Len(a) = 1 THEN <<Append(below, Item("e", "", a[1])), t>> ELSE <<>>
            [] fr.t = "call" -> IF Len(s) > f /\ (Len(s) - f) % 2 = 0 THEN <<>> ELSE <<new, Append(t, Node("call", fr.v, a))>>
            [] fr.t = "list" -> IF Len(s) > f /\ (Len(s) - f) % 2 = 0 THEN <<>> ELSE <<new, Append(t, Node("list", "", a))>>
            [] fr.t = "index" ->
                 IF Len(a) # 2 \/ t[a[1]].k # "num" \/ t[a[2]].k # "num" THEN <<>>
                 ELSE LET o == below[Len(below)].n IN
                      <<Append(SubSeq(below, 1, Len(below) - 1), Item("e", "", Len(t) + 1)),
                        Append(t, Node("part", "[" \o t[a[1]].v \o "," \o t[a[2]].v \o "]", <<o>>))>>

\* one token: <<stack, nodes>>, or <<>> if the text cannot be read
Read(tok, s, t) ==
  CASE tok.t = "num" -> IF Operand(s) THEN <<>>
                        ELSE <<Append(s, Item("e", "", Len(t) + 1)), Append(t, Node("num", tok.v, <<>>))>>
    [] tok.t = "name" -> IF Operand(s) THEN <<>>
                         ELSE <<Append(s, Item("e", "", Len(t) + 1)), Append(t, Node("var", tok.v, <<>>))>>
    [] tok.t = "field" -> IF ~Operand(s) THEN <<>>
                          ELSE <<Append(SubSeq(s, 1, Len(s) - 1), Item("e", "", Len(t) + 1)),
                                 Append(t, Node("part", "." \o tok.v, <<s[Len(s)].n>>))>>
    [] tok.t = "call" -> IF Operand(s) THEN <<>> ELSE <<Append(s, Item("call", tok.v, 0)), t>>
    [] tok.t = "(" -> IF Operand(s) THEN <<>> ELSE <<Append(s, Item("group", "", 0)), t>>
    [] tok.t = "[" -> <<Append(s, Item(IF Operand(s) THEN "index" ELSE "list", "", 0)), t>>
    [] tok.t = "op" -> IF tok.v = "-" /\ ~Operand(s) THEN <<Append(s, Item("neg", "", 0)), t>>
                       ELSE IF ~Operand(s) THEN <<>>
                       ELSE With(Reduce(s, t, Prec(tok.v)), LAMBDA r : <<Append(r[1], Item("bin", tok.v, 0)), r[2]>>)
    [] tok.t = "," -> IF ~Operand(s) THEN <<>>
                      ELSE With(Reduce(s, t, 0), LAMBDA r : <<Append(r[1], Item("comma", "", 0)), r[2]>>)
    [] tok.t \in {")", "]"} ->
         With(Reduce(s, t, 0), LAMBDA r :
            LET f == Frame(r[1]) IN
            IF f = 0 THEN <<>>
            ELSE IF (tok.t = ")") # (r[1][f].t \in {"group", "call"}) THEN <<>>
            ELSE Close(r[1], r[2], f))
    [] OTHER -> <<>>

(* -------------------------------- meaning ------------------------------- *)
\* Everything but arithmetic is left uninterpreted: an operator stands for an arbitrary function of its
\* operands, so that no two different readings agree by accident.
Weight(h, e) == IF h \in DOMAIN P.heads THEN P.heads[h] ELSE "1/997"
RECURSIVE MixR(_, _, _, _)
MixR(w, xs, i, acc) ==
  IF i > Len(xs) THEN acc
  ELSE MixR(w, xs, i + 1, NAdd(acc, NMul(NAdd(w, ToString(i)), NFn("atan", NAdd(xs[i], NMul(w, ToString(i + 1)))))))
Mix(h, e, xs) == IF \E i \in 1..Len(xs) : xs[i] = Undef THEN Undef ELSE MixR(Weight(h, e), xs, 1, NMul(Weight(h, e), "3"))

Leaf(e, name) == IF name \in DOMAIN e THEN e[name] ELSE IF name = "pi" THEN NConst("pi") ELSE IF name = "E" THEN NConst("e")
                 ELSE IF name = "I" THEN NConst("i") ELSE Undef
RECURSIVE Sum(_, _), Prod(_, _)
Sum(xs, i) == IF i > Len(xs) THEN "0" ELSE NAdd(xs[i], Sum(xs, i + 1))
Prod(xs, i) == IF i > Len(xs) THEN "1" ELSE NMul(xs[i], Prod(xs, i + 1))

Arith(e, n, As) ==
  CASE n.k = "num" -> n.v
    [] n.k = "add" -> Sum(As, 1)
    [] n.k = "sub" -> NSub(As[1], As[2])
    [] n.k = "neg" -> NNeg(As[1])
    [] n.k = "mul" -> Prod(As, 1)
    [] n.k = "div" -> NDiv(As[1], As[2])
    [] n.k = "pow" -> NPow(As[1], As[2])
    [] n.k = "uneval" -> As[1]
    [] n.k = "const" -> NConst(n.v)
    [] OTHER -> Undef
ArithKinds == {"num", "add", "sub", "neg", "mul", "div", "pow", "uneval", "const"}

\* the expression: nodes as read through the public interface
RelOp == [lt |-> "<", le |-> "<=", eq |-> "=="]
HeadOf(n) ==
  CASE n.k \in {"fn", "call", "ext"} -> n.v
    [] n.k = "list" -> "list"
    [] n.k \in DOMAIN RelOp -> RelOp[n.k]
    [] n.k = "deriv" -> "Derivative"
    [] n.k = "subst" -> "Subs"
    [] n.k = "stopd" -> "StopDerivative"
    [] OTHER -> n.k
Meant(e, n, As) ==
  IF n.k \in ArithKinds THEN Arith(e, n, As)
  ELSE CASE n.k = "var" -> Leaf(e, n.v)
         [] n.k = "zoo" -> e["zoo"]
         [] n.k = "nan" -> e["nan"]
         [] n.k = "true" -> e["True"]
         [] n.k = "false" -> e["False"]
         [] n.k = "deriv" -> Mix("Derivative", e, IF n.v = "1" THEN As ELSE As \o <<n.v>>)
         [] OTHER -> Mix(HeadOf(n), e, As)

\* the text: parts of named objects are leaves, parts of results of external functions are their elements
RECURSIVE PathOf(_, _)
PathOf(t, i) == IF t[i].k = "part" THEN LET r == PathOf(t, t[i].a[1]) IN <<r[1], r[2] \o t[i].v>> ELSE <<i, "">>
Text(e, t, vals, i) ==
  LET n == t[i]
      As == [j \in 1..Len(n.a) |-> vals[n.a[j]]]
  IN IF n.k \in ArithKinds THEN Arith(e, n, As)
     ELSE CASE n.k = "var" -> Leaf(e, n.v)
            [] n.k = "part" -> LET r == PathOf(t, i) IN
                 IF t[r[1]].k = "var" THEN Leaf(e, t[r[1]].v \o r[2])
                 ELSE IF t[r[1]].k = "call" THEN With([j \in 1..Len(t[r[1]].a) |-> vals[t[r[1]].a[j]]],
                                                      LAMBDA xs : Mix(t[r[1]].v \o "#" \o r[2], e, xs))
                 ELSE Undef
            [] n.k = "list" -> Mix("list", e, As)
            [] n.k = "call" -> IF n.v \in {P.externals[j] : j \in 1..Len(P.externals)} THEN Mix(n.v \o "#", e, As) ELSE Mix(n.v, e, As)
            [] OTHER -> Undef
\* matrices have no value of their own
ValueText(e, t) == FoldLeft(LAMBDA acc, i : Append(acc, Text(e, t, acc, i)), <<>>, [i \in 1..Len(t) |-> i])
ValueMeant(e) == FoldLeft(LAMBDA acc, i : Append(acc, Meant(e, P.nodes[i], [j \in 1..Len(P.nodes[i].a) |-> acc[P.nodes[i].a[j]]])),
                          <<>>, [i \in 1..Len(P.nodes) |-> i])

\* roots of the text in the shape of what was printed
Roots(s, t) ==
  IF Len(s) # 1 \/ s[1].t # "e" THEN <<>>
  ELSE IF P.sort # "m" THEN <<s[1].n>>
  ELSE LET m == t[s[1].n] IN
       IF m.k # "list" \/ Len(m.a) # P.rows THEN <<>>
       ELSE IF \E i \in 1..Len(m.a) : t[m.a[i]].k # "list" \/ Len(t[m.a[i]].a) # P.cols THEN <<>>
       ELSE [q \in 1..(P.rows * P.cols) |-> t[m.a[((q - 1) \div P.cols) + 1]].a[((q - 1) % P.cols) + 1]]

Same(u, v) == IF u = Undef \/ v = Undef THEN u = v ELSE NClose(u, v, 25, "1")
Wrong(s, t) ==
  With(Roots(s, t), LAMBDA rs :
    IF rs = <<>> /\ P.roots # <<>> THEN {<<0, "text does not read as an expression of its kind", "", "">>}
    ELSE UNION {With(<<ValueText(P.env[q], t), ValueMeant(P.env[q])>>, LAMBDA w :
            {<<q, "text means something else", w[2][P.roots[j]], w[1][rs[j]]>> : j \in {j \in 1..Len(rs) : ~Same(w[1][rs[j]], w[2][P.roots[j]])}})
          : q \in 1..Len(P.env)})

(* ------------------------------- tree form ------------------------------ *)
T == P.tree      \* lines: depth, connectors to the left, kind, detail
LaterSibling(i) == \E j \in (i + 1)..Len(T) : T[j].d = T[i].d /\ \A q \in (i + 1)..j : T[q].d >= T[i].d
Above(i, d) == CHOOSE j \in 1..i : T[j].d = d /\ \A q \in (j + 1)..i : T[q].d > d
Children(i) == SelectSeq([j \in 1..(Len(T) - i) |-> i + j],
                         LAMBDA j : T[j].d = T[i].d + 1 /\ \A q \in (i + 1)..(j - 1) : T[q].d > T[i].d)
LinesOk == \A i \in 1..Len(T) :
  /\ Len(T[i].c) = T[i].d
  /\ i = 1 => T[i].d = 0
  /\ i > 1 => T[i].d >= 1 /\ T[i].d <= T[i - 1].d + 1
  /\ \A d \in 1..T[i].d : T[i].c[d] = (IF d = T[i].d THEN IF LaterSibling(i) THEN "tee" ELSE "end"
                                       ELSE IF LaterSibling(Above(i, d)) THEN "bar" ELSE "gap")
Commutes(k) == k \in {"add", "mul"}
Sorted(s) == SortSeq(s, LAMBDA p, q : p < q)
Key(k, v, a) == <<k, v, IF Commutes(k) THEN Sorted(a) ELSE a>>
\* keys of the nodes of the expression, with equal sub-expressions sharing a class
ClassOf(seen, key) == LET S == {i \in 1..Len(seen) : seen[i] = key} IN IF S = {} THEN Len(seen) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* Structure tables: sequence of keys of distinct structures, and the class of each node
Classes(seen0, n, Kd(_), Ch(_)) ==
  FoldLeft(LAMBDA acc, i : With(Key(Kd(i)[1], Kd(i)[2], [j \in 1..Len(Ch(i)) |-> acc[2][Ch(i)[j]]]), LAMBDA key :
              With(ClassOf(acc[1], key), LAMBDA c : <<IF c > Len(acc[1]) THEN Append(acc[1], key) ELSE acc[1], (i :> c) @@ acc[2]>>)),
           <<seen0, <<>>>>, n)
TreeWrong ==
  IF ~LinesOk THEN {<<0, "tree is not laid out as a tree", "", "">>}
  ELSE LET up == [i \in 1..Len(P.snodes) |-> i]
           down == [i \in 1..Len(T) |-> Len(T) + 1 - i]
       IN With(Classes(<<>>, up, LAMBDA i : <<P.snodes[i].k, P.snodes[i].v>>, LAMBDA i : P.snodes[i].a), LAMBDA A :
            With(Classes(A[1], down, LAMBDA i : <<T[i].k, T[i].v>>, LAMBDA i : Children(i)), LAMBDA B :
              IF B[2][1] = A[2][Len(P.snodes)] THEN {} ELSE {<<0, "tree shows another expression", "", "">>}))

(* -------------------------------- actions ------------------------------- *)
Reject(b) == /\ phase' = "rejected"
             /\ PrintT("@@REJECT " \o ToJson([id |-> P.id, q |-> b[1], what |-> b[2], want |-> b[3], got |-> b[4]]))
             /\ UNCHANGED <<pid, pos, stk, ns>>

ReadToken ==
  /\ phase = "text" /\ pos <= Len(P.toks)
  /\ \E r \in {Read(P.toks[pos], stk, ns)} :
       IF r = <<>> THEN Reject(<<0, "text cannot be read", "", ToString(pos)>>)
       ELSE /\ stk' = r[1] /\ ns' = r[2] /\ pos' = pos + 1
            /\ UNCHANGED <<pid, phase>>

EndOfText ==
  /\ phase = "text" /\ pos > Len(P.toks)
  /\ \E r \in {Reduce(stk, ns, 0)} : \E bad \in {Wrong(r[1], r[2])} :
       IF bad # {} THEN Reject(CHOOSE b \in bad : TRUE)
       ELSE phase' = "tree" /\ UNCHANGED <<pid, pos, stk, ns>>

ReadTree ==
  /\ phase = "tree"
  /\ \E bad \in {TreeWrong} :
       IF bad # {} THEN Reject(CHOOSE b \in bad : TRUE)
       ELSE /\ phase' = "done"
            /\ PrintT("@@DONE " \o ToJson([id |-> P.id, toks |-> Len(P.toks), lines |-> Len(T)]))
            /\ UNCHANGED <<pid, pos, stk, ns>>

Next == ReadToken \/ EndOfText \/ ReadTree
Spec == Init /\ [][Next]_vars
=============================================================================
