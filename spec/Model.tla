-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* What every supported model means: the answer of a fitted artifact to a   *)
(* call, over exact numbers.  An artifact is a record whose field k names   *)
(* its kind and whose other fields are the fitted parameters of the SOURCE  *)
(* model.  The library's own data structures do not appear here.            *)
(*                                                                          *)
(*   Supported(a)      the library must convert a (otherwise it must refuse)*)
(*   Offers(a, m)      method m is available on the converted a             *)
(*   TransformM(a,x)   output matrix of a transformer                       *)
(*   ProbaM(a,x,q)     class probabilities, one row per input row           *)
(*   LabelSets(a,x,q)  admissible labels per input row                      *)
(*   Verdict(a,m,x,y)  "ok", or the name of the clause y violates           *)
(*                                                                          *)
(* An expected row <<>> is "not judged" (see Leaf and OvrRow); q is TRUE    *)
(* when x was computed by inexact steps, so that a comparison that comes    *)
(* out within rounding of its threshold may go either way.                  *)
(***************************************************************************)
EXTENDS Text

REL == "1/10000000"
ABS == "1/1000000000"
Near(a, b) == NClose(a, b, REL, ABS)
TINY == NDiv("1", NExp("690"))       \* 10^-300
IsMat(x) == x.f \in {"D", "S"}
Vec(s) == [f |-> "V", v |-> s]
NSub2(s, c) == Map(LAMBDA e : NSub(e, c), s)
Zeros(n) == [i \in 1..n |-> "0"]
Has(a, field) == field \in DOMAIN a
Flag(a, field) == Has(a, field) /\ a[field]

(***************************************************************************)
(* Scalar functions                                                        *)
(***************************************************************************)
Sigmoid(x) == IF NLe("0", x) THEN NDiv("1", NAdd("1", NExp(NNeg(x))))
              ELSE LET e == NExp(x) IN NDiv(e, NAdd("1", e))
Softmax(s) == LET m == MaxNum(s)
                  e == Map(LAMBDA v : NExp(NSub(v, m)), s)
                  t == NSum(e)
              IN  Map(LAMBDA v : NDiv(v, t), e)
LogSumExp(s) == LET m == MaxNum(s)
                IN NAdd(m, NLog(NSum(Map(LAMBDA v : NExp(NSub(v, m)), s))))
Clip(v, lo, hi) == IF NLt(v, lo) THEN lo ELSE IF NLt(hi, v) THEN hi ELSE v

(***************************************************************************)
(* Labels.  Admissible labels for a score vector: the first largest, or any *)
(* within rounding of the largest when the scores were not computed exactly *)
(***************************************************************************)
LabelSet(s, classes, exact) ==
  LET m == MaxNum(s)
      near == {i \in 1..Len(s) : Near(s[i], m)}
      eq == {i \in near : NEq(s[i], m)}
      first == CHOOSE i \in eq : \A j \in eq : i <= j
  IN  IF exact THEN {classes[first]} ELSE {classes[i] : i \in near}

AllGrid(s) == Len(s) <= 31 /\ \A j \in 1..Len(s) : NGrid(s[j])

(***************************************************************************)
(* Linear classifiers: coef (rows), b (intercepts), classes                 *)
(***************************************************************************)
LinScores(a, x) ==
  TLCEval([i \in 1..NRows(x) |-> [c \in 1..Len(a.coef) |-> NAdd(DotRow(x, i, a.coef[c]), a.b[c])]])
LinOvr(a) ==     \* how a logistic regression turns scores into probabilities
  \/ a.est = "sgd"
  \/ a.multi \in {"ovr", "warn"}
  \/ a.multi = "auto" /\ (Len(a.classes) <= 2 \/ a.solver = "liblinear")
OvrRow(s) ==
  IF Len(s) = 1 THEN LET p == Sigmoid(s[1]) IN <<NSub("1", p), p>>
  ELSE LET e == Map(Sigmoid, s)
           t == NSum(e)
       IN  \* a sigmoid underflows and the sum with it: the definition divides by
           \* (next to) zero
           IF NLe(MaxNum(s), "-10") /\ \E i \in 1..Len(s) : NLe(s[i], "-700") THEN <<>>
           ELSE Map(LAMBDA v : NDiv(v, t), e)
SoftRow(s) == IF Len(s) = 1 THEN Softmax(<<NNeg(s[1]), s[1]>>) ELSE Softmax(s)
LinProba(a, x) ==
  LET S == LinScores(a, x)
  IN  TLCEval([i \in 1..Len(S) |-> IF LinOvr(a) THEN OvrRow(S[i]) ELSE SoftRow(S[i])])
(* A score that no rounding can have touched decides exactly: zero is the    *)
(* first class, equal scores the first of them.  Neither can the sign of a   *)
(* score be wrong whose terms all have that sign.                            *)
SameSign(b, vs, w) ==
  LET ts == <<b>> \o [j \in 1..Len(vs) |-> NMul(vs[j], w[j])]
      big(v) == NLe(TINY, NAbs(v))
  IN  /\ \A j \in 1..Len(ts) : NEq(ts[j], "0") \/ big(ts[j])
      /\ \E j \in 1..Len(ts) : big(ts[j])
      /\ (\A j \in 1..Len(ts) : NLe("0", ts[j])) \/ (\A j \in 1..Len(ts) : NLe(ts[j], "0"))
LinLabels(a, x, q) ==
  LET S == LinScores(a, x)
      fit == TLCEval(/\ ~q /\ AllGrid(a.b) /\ (\A c \in 1..Len(a.coef) : AllGrid(a.coef[c])))
      E(i) == fit /\ AllGrid(RowVals(x, i))
      Bin(v, exact, i) == IF ~exact /\ Near(v, "0") /\ ~(~q /\ SameSign(a.b[1], DenseRow(x, i), a.coef[1]))
                THEN {a.classes[1], a.classes[2]}
                ELSE IF NLt("0", v) THEN {a.classes[2]} ELSE {a.classes[1]}
  IN  TLCEval([i \in 1..Len(S) |-> IF Len(S[i]) = 1 THEN Bin(S[i][1], E(i), i) ELSE LabelSet(S[i], a.classes, E(i))])

(***************************************************************************)
(* Trees: arrays indexed by node id (0-based); left = -1 at a leaf.         *)
(* Leaf(..) = -1 when a test is within rounding of its threshold (q).       *)
(***************************************************************************)
RECURSIVE Leaf(_, _, _, _, _)
Leaf(t, x, i, n, q) ==
  IF t.left[n+1] = -1 THEN n
  ELSE LET v == Cell(x, i, t.feat[n+1])
       IN  IF q /\ Near(v, t.thr[n+1]) THEN -1
           ELSE Leaf(t, x, i, IF NLe(v, t.thr[n+1]) THEN t.left[n+1] ELSE t.right[n+1], q)
Leaves(t, x, q) == TLCEval([i \in 1..NRows(x) |-> Leaf(t, x, i, 0, q)])
TreeProba(t, x, q) ==
  LET L == Leaves(t, x, q)
      P(n) == LET w == t.val[n+1]  s == NSum(w) IN Map(LAMBDA v : NDiv(v, s), w)
  IN  TLCEval([i \in 1..Len(L) |-> IF L[i] = -1 THEN <<>> ELSE P(L[i])])
TreeLabels(t, x, q) ==
  LET L == Leaves(t, x, q)
  IN  [i \in 1..Len(L) |-> IF L[i] = -1 THEN {} ELSE
        LET w == t.val[L[i]+1]  m == MaxNum(w)
            strict == \A c \in 1..Len(w) : NClose(w[c], m, "1/1000000000000", "0") => NEq(w[c], m)
        IN LabelSet(w, t.classes, strict)]
TreeValues(t, x, q) ==      \* regression: <<value>> or <<>>
  LET L == Leaves(t, x, q)
  IN  TLCEval([i \in 1..Len(L) |-> IF L[i] = -1 THEN <<>> ELSE <<t.val[L[i]+1][1]>>])

(***************************************************************************)
(* XGBoost trees: left taken when value < split, missing takes the default  *)
(***************************************************************************)
RECURSIVE XLeaf(_, _, _, _, _)
XLeaf(t, row, miss, n, q) ==
  IF t.left[n+1] = -1 THEN n
  ELSE LET v == row[t.feat[n+1] + 1]
           gone == NIsNan(v) \/ NEq(v, miss)
       IN  IF q /\ ~gone /\ Near(v, t.thr[n+1]) THEN -1
           ELSE XLeaf(t, row, miss,
                  IF gone THEN t.def[n+1] ELSE IF NLt(v, t.thr[n+1]) THEN t.left[n+1] ELSE t.right[n+1], q)
XgbK(a) == IF a.obj = "binary:logistic" THEN 1 ELSE Len(a.classes)
XgbTerms(a, x, q) ==      \* per row and class the leaf values that are added up; <<>> when not judged
  LET K == XgbK(a)
      used == Min2(Len(a.trees), a.rounds * K)
      Row(i) == LET r == DenseRow(x, i)
                    ls == TLCEval([j \in 1..used |-> XLeaf(a.trees[j], r, a.missing, 0, q)])
                IN  IF \E j \in 1..used : ls[j] = -1 THEN <<>>
                    ELSE [c \in 1..K |-> [j \in 1..(used \div K) |->
                                    LET jj == (j - 1) * K + c IN a.trees[jj].val[ls[jj] + 1]]]
  IN  TLCEval([i \in 1..NRows(x) |-> Row(i)])
XgbRow(a, t) ==
  IF t = <<>> THEN <<>>
  ELSE IF Len(t) = 1 THEN LET p == Sigmoid(NAdd(NSum(t[1]), a.margin)) IN <<NSub("1", p), p>>
  ELSE Softmax([c \in 1..Len(t) |-> NSum(t[c])])
XgbProba(a, x, q) == LET T == XgbTerms(a, x, q) IN TLCEval([i \in 1..Len(T) |-> XgbRow(a, T[i])])
(* no rounding can have touched the comparison of the classes               *)
XgbExact(a, t) == \/ NGrid(a.margin) /\ (\A c \in 1..Len(t) : AllGrid(t[c]))
                  \/ Len(t) > 1 /\ \A c \in 1..Len(t) : t[c] = t[1]

(***************************************************************************)
(* Naive Bayes (joint log-likelihoods) and the prior dummy                  *)
(***************************************************************************)
NbJll(a, x) ==
  LET G(i, c) == LET r == DenseRow(x, i)
                     t == [j \in 1..Len(r) |->
                             LET d == NSub(r[j], a.th[c][j])
                             IN NAdd(NLog(NMul(NMul("2", NPi), a.sg[c][j])), NDiv(NMul(d, d), a.sg[c][j]))]
                 IN NSub(NLog(a.prior[c]), NDiv(NSum(t), "2"))
      One(i, c) == CASE a.nb = "g" -> G(i, c)
                     [] a.nb = "m" -> NAdd(DotRow(x, i, a.flp[c]), a.lprior[c])
                     [] a.nb = "c" -> NAdd(DotRow(x, i, a.flp[c]), IF Len(a.classes) = 1 THEN a.lprior[1] ELSE "0")
  IN  TLCEval([i \in 1..NRows(x) |-> [c \in 1..Len(a.classes) |-> One(i, c)]])
NbLog(a, x) == LET J == NbJll(a, x) IN TLCEval([i \in 1..Len(J) |-> NSub2(J[i], LogSumExp(J[i]))])
NbProba(a, x) == LET L == NbLog(a, x) IN TLCEval([i \in 1..Len(L) |-> Map(NExp, L[i])])
NbSet(s, classes) ==      \* logarithms: their absolute difference counts
  LET m == MaxNum(s) IN {classes[i] : i \in {c \in 1..Len(s) : NEq(s[c], m) \/ NClose(s[c], m, "1/10000000000", ABS)}}
DummyProba(a, x) == [i \in 1..NRows(x) |-> a.prior]
DummyLabels(a, x) == [i \in 1..NRows(x) |-> LabelSet(a.prior, a.classes, TRUE)]

(***************************************************************************)
(* Scalers, normalizer                                                      *)
(***************************************************************************)
Scale(x, s) == MapMat(x, LAMBDA j, v : NDiv(v, s[j + 1]))
StdT(a, x) ==
  IF IsSparse(x) /\ a.with_mean THEN Raise
  ELSE LET c == IF a.with_mean THEN MapMat(x, LAMBDA j, v : NSub(v, a.mean[j + 1])) ELSE x
       IN  IF a.with_std THEN Scale(c, a.scale) ELSE c
MinMaxT(a, x) == MapMat(x, LAMBDA j, v : NAdd(NMul(v, a.scale[j + 1]), a.min[j + 1]))
NormOf(vs, norm) ==
  LET ab == Map(NAbs, vs)
  IN  CASE norm = "l1" -> NSum(ab)
        [] norm = "l2" -> NSqrt(NDot(vs, vs))
        [] norm = "max" -> IF vs = <<>> THEN "0" ELSE MaxNum(ab)
RowNorm(x, i, norm) == LET z == NormOf(RowVals(x, i), norm) IN IF NEq(z, "0") THEN "1" ELSE z
NormalizeM(x, norm) ==
  [x EXCEPT !.rows = TLCEval([i \in 1..NRows(x) |->
      LET z == RowNorm(x, i, norm) IN MapRow(x, i, LAMBDA j, v : NDiv(v, z))])]

(***************************************************************************)
(* Encoders.  Cells are numbers or strings "s:..."; equality is identity.   *)
(***************************************************************************)
CatPos(cats, v) == LET P == {p \in 1..Len(cats) : cats[p] = v} IN IF P = {} THEN 0 ELSE CHOOSE p \in P : TRUE
Offset(a, j) == FoldLeft(LAMBDA s, k : s + Len(a.cats[k]), 0, [k \in 1..(j - 1) |-> k])
EncUnknown(a, x) == \E i \in 1..NRows(x), j \in 1..Len(a.cats) : CatPos(a.cats[j], x.rows[i][j]) = 0
OneHotT(a, x) ==
  IF a.unknown = "error" /\ EncUnknown(a, x) THEN Raise
  ELSE LET W == Offset(a, Len(a.cats) + 1)
           off == TLCEval([j \in 1..Len(a.cats) |-> Offset(a, j)])
           R(i) == LET known == SelectSeq([j \in 1..Len(a.cats) |-> j], LAMBDA j : CatPos(a.cats[j], x.rows[i][j]) # 0)
                   IN [c |-> [p \in 1..Len(known) |-> off[known[p]] + CatPos(a.cats[known[p]], x.rows[i][known[p]]) - 1],
                       v |-> [p \in 1..Len(known) |-> "1"]]
           S == Sparse(W, TLCEval([i \in 1..NRows(x) |-> R(i)]))
       IN  IF a.sparse THEN S ELSE ToDense(S)
OrdinalT(a, x) ==
  IF EncUnknown(a, x) THEN Raise
  ELSE Dense(Len(a.cats), TLCEval([i \in 1..NRows(x) |->
         [j \in 1..Len(a.cats) |-> NOfInt(CatPos(a.cats[j], x.rows[i][j]) - 1)]]))

(***************************************************************************)
(* Imputation                                                               *)
(***************************************************************************)
IsMissing(v, marker) == v = marker \/ (marker # "nan" /\ NEq(v, marker))     \* cells and markers may be text
MissIndT(a, x) ==
  LET New == {j \in 1..x.n : (\E i \in 1..NRows(x) : IsMissing(x.rows[i][j], a.marker))} \ {a.cols[p] + 1 : p \in 1..Len(a.cols)}
      cols == IF a.features = "all" THEN [j \in 1..x.n |-> j] ELSE [p \in 1..Len(a.cols) |-> a.cols[p] + 1]
  IN  IF a.features = "missing-only" /\ a.err /\ New # {} THEN Raise
      ELSE Dense(Len(cols), TLCEval([i \in 1..NRows(x) |->
             [p \in 1..Len(cols) |-> IF IsMissing(x.rows[i][cols[p]], a.marker) THEN "1" ELSE "0"]]))
ImputeT(a, x) ==
  LET keep == SelectSeq([j \in 1..x.n |-> j], LAMBDA j : a.strategy = "constant" \/ a.stats[j] # "nan")
      base == [i \in 1..NRows(x) |-> [p \in 1..Len(keep) |->
                 LET v == x.rows[i][keep[p]] IN IF IsMissing(v, a.marker) THEN a.stats[keep[p]] ELSE v]]
      ind == IF Has(a, "ind") THEN MissIndT([a.ind EXCEPT !.err = FALSE], x) ELSE Dense(0, [i \in 1..NRows(x) |-> <<>>])
  IN  Dense(Len(keep) + ind.n, TLCEval([i \in 1..NRows(x) |-> base[i] \o ind.rows[i]]))

(***************************************************************************)
(* TF-IDF on a count matrix                                                 *)
(***************************************************************************)
TfidfT(a, x) ==
  LET s == ToSparse(x)
      tf(v) == IF ~a.sublinear THEN v ELSE IF NEq(v, "0") THEN "0" ELSE NAdd(NLog(v), "1")
      w == MapMat(s, LAMBDA j, v : IF a.use_idf THEN NMul(tf(v), a.idf[j + 1]) ELSE tf(v))
  IN  IF a.norm = "none" THEN w ELSE NormalizeM(w, a.norm)
HashT(a, x) == LET h == HashMat(a, x) IN IF a.norm = "none" THEN h ELSE NormalizeM(h, a.norm)

(***************************************************************************)
(* Mappings: x.rows[i] = [keys, vals]; a string value v is "s:v"            *)
(***************************************************************************)
DictT(a, x) ==
  LET voc == TLCEval([t \in ToSet(a.names) |-> a.cols[CHOOSE i \in 1..Len(a.names) : a.names[i] = t]])
      Key(r, p) == IF r.str[p] THEN r.keys[p] \o a.sep \o r.vals[p] ELSE r.keys[p]
      R(i) == LET r == x.rows[i]
                  ps == SelectSeq([p \in 1..Len(r.keys) |-> p], LAMBDA p : Key(r, p) \in DOMAIN voc)
              IN [c |-> [q \in 1..Len(ps) |-> voc[Key(r, ps[q])]],
                  v |-> [q \in 1..Len(ps) |-> IF r.str[ps[q]] THEN "1" ELSE r.vals[ps[q]]]]
      S == Sparse(Len(a.names), TLCEval([i \in 1..NRows(x) |-> R(i)]))
  IN  IF a.sparse THEN S ELSE ToDense(S)

(***************************************************************************)
(* Which inputs a model accepts.  x.f = "X": not a data matrix at all       *)
(* (x.what = "notlist" | "empty" | "str").                                  *)
(***************************************************************************)
Vectorizers == {"count", "tfidfvec", "hashvec"}
SparseOk == {"linear", "tree", "avg", "std", "maxabs", "norm", "tfidf", "dummy"}
WidthOf(a) ==       \* -1: the width of the input is not checked by contract
  CASE a.k \in {"linear", "gb", "impute", "missind", "onehot", "ordinal"} -> a.n
    [] a.k = "tfidf" -> IF a.use_idf THEN a.n ELSE -1
    [] OTHER -> -1
RECURSIVE Refuses(_, _)
Refuses(a, x) ==
  CASE a.k = "pass" -> FALSE
    [] a.k = "pipe" -> LET ss == SelectSeq(a.steps, LAMBDA s : s.k # "pass")
                       IN IF ss = <<>> THEN FALSE ELSE Refuses(ss[1], x)
    [] a.k = "union" -> \/ x.f = "X" \/ \E i \in 1..Len(a.parts) : a.parts[i].art.k # "drop" /\ Refuses(a.parts[i].art, x)
    [] a.k = "avg" -> \/ x.f = "X" \/ (x.f = "S" /\ \E i \in 1..Len(a.members) :
                           Refuses(a.members[i].art, Sparse(a.members[i].art.n, <<>>)))
    [] a.k \in Vectorizers -> x.f = "X"
    [] a.k \in {"dictvec", "dummy"} -> FALSE
    [] OTHER -> \/ x.f \notin {"D", "S"}
                \/ x.f = "S" /\ a.k \notin SparseOk
                \/ x.f = "S" /\ a.k = "std" /\ a.with_mean
                \/ WidthOf(a) # -1 /\ x.n # WidthOf(a)

(***************************************************************************)
(* Composition                                                              *)
(***************************************************************************)
RECURSIVE Inexact(_)
Inexact(a) ==      \* may the step's output differ from the exact value by rounding?
  CASE a.k \in {"onehot", "ordinal", "impute", "missind", "count", "dictvec", "pass", "drop"} -> FALSE
    [] a.k = "hashvec" -> a.norm # "none"
    [] a.k = "pipe" -> \E i \in 1..Len(a.steps) : Inexact(a.steps[i])
    [] a.k = "union" -> \E i \in 1..Len(a.parts) : a.parts[i].w # "none" \/ Inexact(a.parts[i].art)
    [] OTHER -> TRUE

WeightM(x, w) == IF w = "none" \/ IsRaise(x) THEN x ELSE MapMat(x, LAMBDA j, v : NMul(v, w))
HCat(ms, rows) ==     \* horizontal concatenation; sparse as soon as one part is
  LET offs == [p \in 1..Len(ms) |-> FoldLeft(LAMBDA s, k : s + ms[k].n, 0, [k \in 1..(p - 1) |-> k])]
      W == FoldLeft(LAMBDA s, k : s + ms[k].n, 0, [k \in 1..Len(ms) |-> k])
      sp == [p \in 1..Len(ms) |-> ToSparse(ms[p])]
  IN  IF \E p \in 1..Len(ms) : IsSparse(ms[p])
      THEN Sparse(W, TLCEval([i \in 1..rows |->
             [c |-> Concat([p \in 1..Len(ms) |-> [q \in 1..Len(sp[p].rows[i].c) |-> sp[p].rows[i].c[q] + offs[p]]]),
              v |-> Concat([p \in 1..Len(ms) |-> sp[p].rows[i].v])]]))
      ELSE Dense(W, TLCEval([i \in 1..rows |-> Concat([p \in 1..Len(ms) |-> ms[p].rows[i]])]))
RowsOf(x) == IF x.f = "T" THEN Len(x.docs) ELSE Len(x.rows)

RECURSIVE TransformM(_, _)
TransformM(a, x) ==
  IF IsRaise(x) THEN Raise ELSE IF Refuses(a, x) THEN Raise ELSE
  CASE a.k = "std" -> StdT(a, x)
    [] a.k = "minmax" -> MinMaxT(a, x)
    [] a.k = "maxabs" -> Scale(x, a.scale)
    [] a.k = "norm" -> NormalizeM(x, a.norm)
    [] a.k = "onehot" -> OneHotT(a, x)
    [] a.k = "ordinal" -> OrdinalT(a, x)
    [] a.k = "missind" -> MissIndT(a, x)
    [] a.k = "impute" -> ImputeT(a, x)
    [] a.k = "count" -> CountMat(a, x)
    [] a.k = "tfidf" -> TfidfT(a, x)
    [] a.k = "tfidfvec" -> TfidfT(a.tfidf, CountMat(a, x))
    [] a.k = "hashvec" -> HashT(a, x)
    [] a.k = "dictvec" -> DictT(a, x)
    [] a.k = "pass" -> x
    [] a.k = "pipe" -> FoldLeft(LAMBDA v, s : IF IsRaise(v) THEN v ELSE TLCEval(TransformM(s, v)), x, a.steps)
    [] a.k = "union" ->
         LET ps == SelectSeq(a.parts, LAMBDA p : p.art.k # "drop")
             ms == TLCEval([i \in 1..Len(ps) |-> WeightM(TransformM(ps[i].art, x), ps[i].w)])
         IN  IF \E i \in 1..Len(ms) : IsRaise(ms[i]) THEN Raise ELSE HCat(ms, RowsOf(x))
FrontSteps(a) == SubSeq(a.steps, 1, Len(a.steps) - 1)
FinalStep(a) == a.steps[Len(a.steps)]
FrontM(a, x) == FoldLeft(LAMBDA v, s : IF IsRaise(v) THEN v ELSE TLCEval(TransformM(s, v)), x, FrontSteps(a))
FrontInexact(a) == \E i \in 1..(Len(a.steps) - 1) : Inexact(a.steps[i])

(***************************************************************************)
(* Classifiers                                                              *)
(***************************************************************************)
MemberX(m, x) == IF ~Has(m, "feats") THEN x
                 ELSE LET s == SelectCols(x, m.feats) IN IF IsSparse(x) THEN ToSparse(s) ELSE s
EPS == "1/8388608"
RECURSIVE ProbaM(_, _, _)
GbRaw(a, x, q) ==      \* raw scores per row and class, <<>> when not judged
  LET K == Len(a.stages[1])
      init == TLCEval(IF a.init.k = "zero" THEN [i \in 1..NRows(x) |-> Zeros(K)]
              ELSE LET P == TLCEval(ProbaM(a.init, x, q))
                       Lg(p) == LET c == Clip(p, EPS, NSub("1", EPS)) IN NLog(NDiv(c, NSub("1", c)))
                       R(p) == CASE p = <<>> -> <<>>
                                 [] p # <<>> /\ K > 1 -> Map(LAMBDA v : NLog(Clip(v, EPS, NSub("1", EPS))), p)
                                 [] p # <<>> /\ a.loss = "deviance" -> <<Lg(p[2])>>
                                 [] OTHER -> <<NDiv(Lg(p[2]), "2")>>
                   IN  [i \in 1..Len(P) |-> R(P[i])])
      vals == TLCEval([s \in 1..Len(a.stages) |-> [c \in 1..K |-> TreeValues(a.stages[s][c], x, q)]])
      Skip(i) == init[i] = <<>> \/ \E s \in 1..Len(vals), c \in 1..K : vals[s][c][i] = <<>>
      Row(i) == IF Skip(i) THEN <<>>
                ELSE [c \in 1..K |-> NAdd(init[i][c], NMul(a.lr, NSum([s \in 1..Len(vals) |-> vals[s][c][i][1]])))]
  IN  TLCEval([i \in 1..NRows(x) |-> Row(i)])
GbRow(a, r) ==
  CASE r = <<>> -> <<>>
    [] r # <<>> /\ Len(r) > 1 -> Softmax(r)
    [] OTHER -> LET p == Sigmoid(IF a.loss = "exponential" THEN NMul("2", r[1]) ELSE r[1])
                IN <<NSub("1", p), p>>
GbLabels(a, x, q) ==
  LET R == GbRaw(a, x, q)
      even == \/ a.init.k = "zero"
              \/ a.init.k = "dummy" /\ Len(a.stages[1]) = 1 /\ NEq(a.init.prior[1], "1/2") /\ NEq(a.init.prior[2], "1/2")
      exact == TLCEval(/\ ~q /\ even /\ NGrid(a.lr) /\ Len(a.stages) <= 31
                       /\ \A s \in 1..Len(a.stages), c \in 1..Len(a.stages[1]) :
                             LET t == a.stages[s][c] IN \A n \in 1..Len(t.left) : t.left[n] = -1 => NGrid(t.val[n][1]))
      B(v) == IF ~exact /\ Near(v, "0") THEN {a.classes[1], a.classes[2]}
              ELSE IF NLt("0", v) \/ (a.loss = "exponential" /\ NEq(v, "0")) THEN {a.classes[2]} ELSE {a.classes[1]}
  IN  [i \in 1..Len(R) |-> IF R[i] = <<>> THEN {} ELSE IF Len(R[i]) = 1 THEN B(R[i][1])
                           ELSE LabelSet(R[i], a.classes, exact)]

AvgProba(a, x, q) ==
  LET M == TLCEval([m \in 1..Len(a.members) |-> ProbaM(a.members[m].art, MemberX(a.members[m], x), q)])
      Pos(m, c) == IF ~Has(a.members[m], "pos") THEN c ELSE PosOf(a.members[m].pos, c - 1)
      At(m, i, c) == LET p == Pos(m, c) IN IF p = 0 THEN "0" ELSE M[m][i][p]
      Row(i) == IF \E m \in 1..Len(M) : M[m][i] = <<>> THEN <<>>
                ELSE [c \in 1..Len(a.classes) |-> NDiv(NSum([m \in 1..Len(M) |-> At(m, i, c)]), NOfInt(Len(M)))]
  IN  TLCEval([i \in 1..NRows(x) |-> Row(i)])

ProbaM(a, x, q) ==
  CASE a.k = "linear" -> LinProba(a, x)
    [] a.k = "tree" -> TreeProba(a, x, q)
    [] a.k = "avg" -> AvgProba(a, x, q)
    [] a.k = "gb" -> LET R == GbRaw(a, x, q) IN TLCEval([i \in 1..Len(R) |-> GbRow(a, R[i])])
    [] a.k = "xgb" -> XgbProba(a, x, q)
    [] a.k = "nb" -> NbProba(a, x)
    [] a.k = "dummy" -> DummyProba(a, x)
    [] a.k = "pipe" -> ProbaM(FinalStep(a), FrontM(a, x), q \/ FrontInexact(a))

RECURSIVE ClassesOf(_)
ClassesOf(a) == IF a.k = "pipe" THEN ClassesOf(FinalStep(a)) ELSE a.classes
RECURSIVE LabelSets(_, _, _)
LabelSets(a, x, q) ==
  CASE a.k = "linear" -> LinLabels(a, x, q)
    [] a.k = "tree" -> TreeLabels(a, x, q)
    [] a.k = "gb" -> GbLabels(a, x, q)
    [] a.k = "nb" -> LET J == NbJll(a, x) IN [i \in 1..Len(J) |-> NbSet(J[i], a.classes)]
    [] a.k = "dummy" -> DummyLabels(a, x)
    [] a.k = "pipe" -> LabelSets(FinalStep(a), FrontM(a, x), q \/ FrontInexact(a))
    [] a.k = "xgb" ->
         LET T == XgbTerms(a, x, q)
         IN [i \in 1..Len(T) |-> IF T[i] = <<>> THEN {} ELSE LabelSet(XgbRow(a, T[i]), a.classes, ~q /\ XgbExact(a, T[i]))]
    [] a.k = "avg" ->        \* averages no rounding can have touched
         LET P == TLCEval(ProbaM(a, x, q))
             n == Len(a.members)
             even == ~q /\ n \in {1, 2, 4, 8, 16} /\ \A m \in 1..n : a.members[m].art.k = "tree"
             M == TLCEval(IF even THEN [m \in 1..n |-> ProbaM(a.members[m].art, MemberX(a.members[m], x), q)] ELSE <<>>)
         IN [i \in 1..Len(P) |-> IF P[i] = <<>> THEN {}
                 ELSE LabelSet(P[i], a.classes, even /\ \A m \in 1..n : AllGrid(M[m][i]))]

(***************************************************************************)
(* fastText: words, inm (rows), labels, outm, dim, sup                      *)
(***************************************************************************)
FtSep == {32, 10, 9, 13, 11, 12, 0}
FtWords(text) == Runs(text, LAMBDA c : c \notin FtSep)
FtEos == <<60, 47, 115, 62>>
FtId(a, w) == LET P == {p \in 1..Len(a.words) : a.words[p] = w} IN IF P = {} THEN -1 ELSE (CHOOSE p \in P : TRUE) - 1
FtVec(a, w) == LET p == FtId(a, w) IN IF p = -1 THEN Zeros(a.dim) ELSE a.inm[p + 1]
FtMean(vs, dim) == IF vs = <<>> THEN Zeros(dim)
                   ELSE TLCEval([j \in 1..dim |-> NDiv(NSum([i \in 1..Len(vs) |-> vs[i][j]]), NOfInt(Len(vs)))])
FtSent(a, text) ==
  LET ws == FtWords(text) \o (IF a.sup THEN <<FtEos>> ELSE <<>>)
      known == SelectSeq(ws, LAMBDA w : FtId(a, w) # -1)
      Unit(v) == LET z == NSqrt(NDot(v, v)) IN IF NEq(z, "0") THEN v ELSE Map(LAMBDA e : NDiv(e, z), v)
  IN  FtMean(TLCEval([i \in 1..Len(known) |-> IF a.sup THEN FtVec(a, known[i]) ELSE Unit(FtVec(a, known[i]))]), a.dim)
FtProbs(a, text) == LET s == TLCEval(FtSent(a, text)) IN Softmax(TLCEval([c \in 1..Len(a.outm) |-> NDot(s, a.outm[c])]))
(* y = [labels, probs]: right labels with right probabilities, most probable *)
(* first, exactly those that reach the threshold, cut at k                   *)
FtRowVerdict(a, text, k, thr, y) ==
  LET P == TLCEval(FtProbs(a, text))
      kk == IF k = -1 THEN Len(a.labels) ELSE k
      n == Len(y.labels)
      Ix(l) == LET S == {i \in 1..Len(a.labels) : a.labels[i] = l} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
      ix == TLCEval([i \in 1..n |-> Ix(y.labels[i])])
      got == TLCEval({ix[i] : i \in 1..n})
      tolLt(u, v) == NLt(u, v) /\ ~Near(u, v)
      even == \A c \in 1..Len(a.outm) : a.outm[c] = a.outm[1]       \* equal scores: probabilities 1/n exactly
      Must == TLCEval({i \in 1..Len(P) : (~tolLt(P[i], thr) /\ ~Near(P[i], thr)) \/ (even /\ NEq(P[i], thr))})   \* clearly reach the threshold
      May == TLCEval({i \in 1..Len(P) : ~tolLt(P[i], thr)})
  IN  CASE Len(y.probs) # n -> "ft-shape"
        [] n > kk -> "ft-more-than-k"
        [] \E i \in 1..n : ix[i] = 0 -> "ft-unknown-label"
        [] Cardinality(got) # n -> "ft-duplicate-label"
        [] \E i \in 1..n : ~Near(y.probs[i], P[ix[i]]) -> "ft-probability"
        [] \E i \in 1..n : ix[i] \notin May -> "ft-below-threshold"
        [] \E i \in 1..(n - 1) : tolLt(P[ix[i]], P[ix[i + 1]]) -> "ft-order"
        [] n < kk /\ \E i \in Must : i \notin got -> "ft-label-missing"
        [] \E i \in 1..Len(P) : n > 0 /\ i \notin got /\ tolLt(P[ix[n]], P[i]) -> "ft-not-most-probable"
        [] OTHER -> "ok"
FtHasNewline(t) == \E i \in 1..Len(t) : t[i] = 10
FtRefuses(a, m, x) ==
  CASE m = "predict" -> ~a.sup \/ x.kk = 0 \/ x.kk < -1 \/ (\E i \in 1..Len(x.texts) : FtHasNewline(x.texts[i]))
    [] m = "get_sentence_vector" -> FtHasNewline(x.texts[1])
    [] OTHER -> FALSE
FtVerdict(a, m, x, y) ==
  IF FtRefuses(a, m, x) THEN (IF y.f = "raise" THEN "ok" ELSE "answered-instead-of-refusing")
  ELSE IF y.f = "raise" THEN "refused-valid-input"
  ELSE CASE m = "predict" ->
              IF y.f # "P" \/ y.list # x.list \/ Len(y.rows) # Len(x.texts) THEN "ft-form"
              ELSE LET vs == [i \in 1..Len(x.texts) |-> FtRowVerdict(a, x.texts[i], x.kk, x.thr, y.rows[i])]
                       bad == SelectSeq(vs, LAMBDA s : s # "ok")
                   IN IF bad = <<>> THEN "ok" ELSE bad[1]
         [] m = "get_word_id" -> IF y = Vec(<<NOfInt(FtId(a, x.texts[1]))>>) THEN "ok" ELSE "ft-word-id"
         [] OTHER ->
              LET e == CASE m = "get_word_vector" -> FtVec(a, x.texts[1])
                         [] m = "get_input_vector" -> a.inm[x.kk + 1]
                         [] m = "get_sentence_vector" -> FtSent(a, x.texts[1])
              IN IF y.f = "V" /\ Len(y.v) = Len(e) /\ \A j \in 1..Len(e) : Near(y.v[j], e[j]) THEN "ok" ELSE "ft-vector"

(***************************************************************************)
(* Library functions on plain data: x.a = argument list                     *)
(***************************************************************************)
Fn1(name, v) == CASE name = "abs" -> NAbs(v) [] name = "neg" -> NNeg(v) [] name = "double" -> NMul("2", v)
                  [] name = "square" -> NMul(v, v)
Fn2(name, u, v) == CASE name = "add" -> NAdd(u, v) [] name = "sub" -> NSub(u, v) [] name = "mul" -> NMul(u, v)
                     [] name = "max" -> IF NLt(u, v) THEN v ELSE u
FnR(name, r) == CASE name = "sum" -> NSum(r) [] name = "max" -> MaxNum(r) [] name = "min" -> NNeg(MaxNum(Map(NNeg, r)))
Transp(x) == Dense(NRows(x), [j \in 1..x.n |-> [i \in 1..NRows(x) |-> x.rows[i][j]]])
LinKer(X, Y) == Dense(NRows(Y), TLCEval([i \in 1..NRows(X) |-> [j \in 1..NRows(Y) |-> DotRow(X, i, Y.rows[j])]]))
CosSim(X, Y) == LinKer(NormalizeM(X, "l2"), NormalizeM(Y, "l2"))
CosDist(X, Y, self) ==
  LET S == CosSim(X, Y)
  IN  Dense(S.n, TLCEval([i \in 1..NRows(S) |-> [j \in 1..S.n |->
        IF self /\ i = j THEN "0" ELSE Clip(NSub("1", S.rows[i][j]), "0", "2")]]))
PairBad(X, Y) == X.f \notin {"D", "S"} \/ Y.f # "D" \/ X.n # Y.n
LibExpect(m, g) ==
  LET A == g[1]  B == IF Len(g) > 1 THEN g[2] ELSE g[1] IN
  CASE m = "tosparse" -> ToSparse(A)
    [] m = "sparse_list" -> ToSparse(A)
    [] m \in {"todense", "todense_again"} -> ToDense(A)       \* ("again": after the caller wrote over the first)
    [] m \in {"tosparse_todense", "tosparse_again"} -> A
    [] m = "issparse" -> Vec(<<IF IsSparse(A) THEN "1" ELSE "0">>)
    [] m = "shape" -> IF A.f = "V" THEN Vec(<<NOfInt(Len(A.v))>>) ELSE Vec(<<NOfInt(NRows(A)), NOfInt(A.n)>>)
    [] m = "ndim" -> IF A.f = "V" THEN Vec(<<"1">>) ELSE Vec(<<"2">>)
    [] m = "dot" -> Vec(IF A.f = "V" THEN Map(LAMBDA r : NDot(A.v, r), B.rows) ELSE Map(LAMBDA r : DotRow(A, 1, r), B.rows))
    [] m = "dot_2d" -> LinKer(A, B)
    [] m = "matmult_same_dim" ->
         IF A.f # B.f \/ A.n # B.n \/ NRows(A) # NRows(B) THEN Raise
         ELSE LET R == Dense(A.n, TLCEval([i \in 1..NRows(A) |-> [j \in 1..A.n |-> NMul(Cell(A, i, j-1), Cell(B, i, j-1))]]))
              IN IF IsSparse(A) THEN ToSparse(R) ELSE R
    [] m = "transpose" -> IF IsSparse(A) THEN Raise ELSE Transp(A)
    [] m = "expit" -> Vec(<<Sigmoid(A.v[1])>>)
    [] m = "sfmax" -> Vec(Softmax(A.v))
    [] m = "logsumexp" -> Vec(<<LogSumExp(A.v)>>)
    [] m = "safe_log" -> Vec(<<NLog(A.v[1])>>)
    [] m = "safe_exp" -> Vec(<<NExp(A.v[1])>>)
    [] m = "operate_2d" -> IF IsSparse(A) \/ IsSparse(B) \/ A.n # B.n \/ NRows(A) # NRows(B) THEN Raise
         ELSE Dense(A.n, [i \in 1..NRows(A) |-> [j \in 1..A.n |-> Fn2(g[3].s, A.rows[i][j], B.rows[i][j])]])
    [] m = "apply_2d" -> IF IsSparse(A) THEN Raise ELSE MapMat(A, LAMBDA j, v : Fn1(B.s, v))
    [] m = "apply_2d_sparse" -> IF ~IsSparse(A) THEN Raise ELSE MapMat(A, LAMBDA j, v : Fn1(B.s, v))
    [] m = "apply_axis_2d" ->
         IF g[3].s = "0" THEN (IF IsSparse(A) THEN Raise ELSE Vec([j \in 1..A.n |-> FnR(B.s, [i \in 1..NRows(A) |-> A.rows[i][j]])]))
         ELSE IF g[3].s = "1" THEN Vec([i \in 1..NRows(A) |-> FnR(B.s, DenseRow(A, i))])
         ELSE Raise
    [] m = "ravel" -> IF IsSparse(A) THEN Raise ELSE Vec(Concat(A.rows))
    [] m = "slice_column" ->
         IF B.f = "V" THEN (LET S == SelectCols(A, B.c) IN IF IsSparse(A) THEN ToSparse(S) ELSE S)
         ELSE Vec([i \in 1..NRows(A) |-> Cell(A, i, B.i)])
    [] m = "accumu" -> Vec([i \in 1..Len(A.v) |-> NSum(SubSeq(A.v, 1, i))])
    [] m = "normalize_pure" ->      \* g[2].s norm, g[3].s axis
         IF B.s \notin {"l1", "l2", "max"} \/ g[3].s \notin {"0", "1"} \/ A.f \notin {"D", "S"} THEN Raise
         ELSE IF g[3].s = "0" THEN (IF IsSparse(A) THEN Raise ELSE Transp(NormalizeM(Transp(A), B.s)))
         ELSE NormalizeM(A, B.s)
    [] m \in {"linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure"} ->
         IF PairBad(A, B) THEN Raise
         ELSE CASE m = "linear_kernel_pure" -> LinKer(A, B)
                [] m = "cosine_similarity_pure" -> CosSim(A, B)
                [] OTHER -> CosDist(A, B, Flag(g[Len(g)], "self"))

(***************************************************************************)
(* What is supported, and what is offered                                   *)
(***************************************************************************)
RECURSIVE Supported(_)
Supported(a) ==
  CASE a.k = "unsupported" -> FALSE       \* unknown class, unfitted, unsupported option
    [] a.k = "pipe" -> \A i \in 1..Len(a.steps) : Supported(a.steps[i])
    [] a.k = "union" -> \A i \in 1..Len(a.parts) : Supported(a.parts[i].art)
    [] a.k = "avg" -> \A i \in 1..Len(a.members) : Supported(a.members[i].art)
    [] a.k = "gb" -> a.loss \in {"deviance", "exponential"} /\ (a.init.k = "zero" \/ Supported(a.init))
    [] a.k = "dummy" -> a.strategy = "prior"
    [] a.k = "tree" -> a.outputs = 1
    [] a.k = "xgb" -> a.obj \in {"binary:logistic", "multi:softprob"} /\ a.booster = "gbtree"
    [] a.k = "ft" -> ~Has(a, "quant") /\ IF a.sup THEN a.loss = "softmax" /\ a.maxn = 0 /\ a.ngrams = 1 ELSE a.maxn = 0
    [] OTHER -> TRUE
Transformers == {"std", "minmax", "maxabs", "norm", "onehot", "ordinal", "missind", "impute", "count",
                 "tfidf", "tfidfvec", "hashvec", "dictvec", "union", "pass"}
ProbaMs == {"predict_proba", "predict_log_proba"}
RECURSIVE Offers(_, _)
Offers(a, m) ==
  CASE a.k \in Transformers -> m = "transform"
    [] a.k = "pipe" -> m # "decision_function" /\ Offers(FinalStep(a), m)
    [] a.k = "linear" -> \/ m \in {"predict", "decision_function"}
                         \/ m \in ProbaMs /\ (a.est = "logistic" \/ (a.est = "sgd" /\ a.loss = "log"))
    [] a.k = "tree" -> m = "predict" \/ (a.task = "c" /\ m \in ProbaMs)
    [] a.k = "xgb" -> m \in {"predict", "predict_proba"}
    [] a.k = "avg" -> m \in {"predict"} \cup ProbaMs
    [] a.k \in {"gb", "nb", "dummy"} -> m \in {"predict"} \cup ProbaMs
    [] a.k = "ft" -> m \in {"predict", "get_word_vector", "get_sentence_vector", "get_word_id", "get_input_vector"}
    [] a.k = "lib" -> TRUE
    [] OTHER -> FALSE

(***************************************************************************)
(* Verdicts                                                                 *)
(***************************************************************************)
(* p computed as one minus something: absolute error of a rounding of 1     *)
RECURSIVE OneMinus(_)
OneMinus(a) ==
  CASE a.k = "linear" -> Len(a.coef) = 1
    [] a.k = "gb" -> Len(a.stages[1]) = 1
    [] a.k = "avg" -> \E i \in 1..Len(a.members) : OneMinus(a.members[i].art)
    [] a.k = "pipe" -> OneMinus(FinalStep(a))
    [] OTHER -> FALSE
LogOk(a, p, y) ==
  \/ NClose(y, NLog(p), REL, ABS)
  \/ NLt(p, NExp("-700")) /\ NLe(y, "-690")
  \/ OneMinus(a) /\ ~NIsNan(y) /\ NClose(NExp(y), p, ABS, "1/1000000000000000")
ProbaTol(a) == IF a.k = "xgb" \/ (a.k = "pipe" /\ FinalStep(a).k = "xgb") THEN "1/500000" ELSE ABS
(* slack of the sum of a row: naive Bayes subtracts logarithms of any size  *)
RECURSIVE SumTol(_)
SumTol(a) == CASE a.k = "pipe" -> SumTol(FinalStep(a))
               [] a.k = "avg" -> IF \E i \in 1..Len(a.members) : SumTol(a.members[i].art) # "1/1000000000000" THEN "1/100000000" ELSE "1/1000000000000"
               [] a.k = "nb" -> "1/100000000"
               [] a.k = "gb" -> "1/10000000000"
               [] OTHER -> "1/1000000000000"
WellFormedRow(a, r, K) ==
  /\ Len(r) = K
  /\ \A j \in 1..K : ~NIsNan(r[j]) /\ NLe("0", r[j]) /\ NLe(r[j], "1000000001/1000000000")
  /\ NClose(NSum(r), "1", SumTol(a), "0")
(* right to rounding, and small probabilities right to a part of themselves *)
(* (the first of two may be computed as what the other leaves)              *)
ProbaClose(a, y, p, T, c) ==
  /\ NClose(y, p, "0", T)
  /\ NClose(y, p, "1/1000", IF a.k \in {"xgb", "gb"} /\ (Len(a.classes) > 2 \/ c = 2) THEN TINY ELSE "1/1000000000000000")
Rows1(y, m) == y.f = "D" /\ Len(y.rows) = m

RECURSIVE LastKind(_)
LastKind(a) == IF a.k = "pipe" THEN LastKind(FinalStep(a)) ELSE a.k
RECURSIVE LastArt(_)
LastArt(a) == IF a.k = "pipe" THEN LastArt(FinalStep(a)) ELSE a
RECURSIVE LastX(_, _)
LastX(a, x) == IF a.k = "pipe" THEN LastX(FinalStep(a), FrontM(a, x)) ELSE x
RECURSIVE LastQ(_)
LastQ(a) == a.k = "pipe" /\ (FrontInexact(a) \/ LastQ(FinalStep(a)))

AbsMat(x) == IF x.f = "V" THEN Vec(Map(NAbs, x.v)) ELSE MapMat(x, LAMBDA j, v : NAbs(v))
(* a sum of products is right up to rounding of its terms                   *)
Within(y, e, b) == NClose(y, e, "0", NAdd(NMul(ABS, b), TINY))
ScoreVerdict(a, x, y) ==
  LET S == LinScores(a, x)
      ax == TLCEval(AbsMat(x))
      Ok(v, i, c) == Within(v, S[i][c], NAdd(DotRow(ax, i, Map(NAbs, a.coef[c])), NAbs(a.b[c])))
  IN
  IF Len(a.coef) = 1
  THEN IF y.f = "V" /\ Len(y.v) = Len(S) /\ \A i \in 1..Len(S) : Ok(y.v[i], i, 1) THEN "ok" ELSE "scores"
  ELSE IF Rows1(y, Len(S)) /\ \A i \in 1..Len(S) :
            Len(y.rows[i]) = Len(S[i]) /\ \A c \in 1..Len(S[i]) : Ok(y.rows[i][c], i, c)
       THEN "ok" ELSE "scores"
LabelVerdict(a, x, q, y) ==
  LET L == TLCEval(LabelSets(a, x, q)) IN
  IF y.f # "V" \/ Len(y.v) # Len(L) THEN "labels-form"
  ELSE IF \A i \in 1..Len(L) : L[i] = {} \/ y.v[i] \in L[i] THEN "ok" ELSE "labels"
ValueVerdict(a, x, q, y) ==
  LET L == TreeValues(a, x, q) IN
  IF y.f = "V" /\ Len(y.v) = Len(L) /\ \A i \in 1..Len(L) : L[i] = <<>> \/ Near(y.v[i], L[i][1]) THEN "ok" ELSE "values"
ProbaVerdict(a, x, q, y) ==
  LET P == TLCEval(ProbaM(a, x, q))
      K == Len(a.classes)
      T == ProbaTol(a)
  IN  IF ~Rows1(y, Len(P)) THEN "proba-form"
      ELSE IF \E i \in 1..Len(P) : P[i] # <<>> /\ ~WellFormedRow(a, y.rows[i], K) THEN "proba-ill-formed"
      ELSE IF \A i \in 1..Len(P) : P[i] = <<>> \/ \A c \in 1..K : ProbaClose(a, y.rows[i][c], P[i][c], T, c) THEN "ok"
      ELSE "proba"
LogProbaVerdict(a, x, q, y) ==
  LET nb == a.k = "nb"
      P == TLCEval(IF nb THEN NbLog(a, x) ELSE ProbaM(a, x, q))
      K == Len(a.classes)
  IN  IF ~Rows1(y, Len(P)) \/ \E i \in 1..Len(P) : Len(y.rows[i]) # K THEN "log-proba-form"
      ELSE IF \A i \in 1..Len(P) : P[i] = <<>> \/ \A c \in 1..K :
                IF nb THEN Near(y.rows[i][c], P[i][c]) ELSE LogOk(a, P[i][c], y.rows[i][c]) THEN "ok"
      ELSE "log-proba"
(* Steps that subtract may lose digits; the others keep the relative error   *)
(* of every cell.                                                           *)
RECURSIVE Subtracts(_)
Subtracts(a) ==
  CASE a.k \in {"std", "minmax"} -> TRUE
    [] a.k = "pipe" -> \E i \in 1..Len(a.steps) : Subtracts(a.steps[i])
    [] a.k = "union" -> \E i \in 1..Len(a.parts) : Subtracts(a.parts[i].art)
    [] OTHER -> FALSE
MatVerdict(e, y, rel, abs) ==
  CASE y.f \notin {"D", "S"} -> "form"
    [] y.f # e.f -> "sparse-or-dense"
    [] ~WellFormed(y) -> "ill-formed-matrix"
    [] NRows(y) # NRows(e) -> "row-count"
    [] y.n # e.n -> "width"
    [] MatClose(e, y, rel, abs) -> "ok"
    [] OTHER -> "matrix"
VecVerdict(e, y, rel, abs) ==
  IF y.f = "V" /\ Len(y.v) = Len(e.v) /\ \A j \in 1..Len(e.v) : NClose(y.v[j], e.v[j], rel, abs) THEN "ok" ELSE "vector"
(* functions that only move data return the very numbers                    *)
Moves == {"tosparse", "sparse_list", "todense", "todense_again", "tosparse_todense", "tosparse_again", "issparse", "shape", "ndim", "transpose", "ravel", "slice_column"}
AbsExpect(m, g) == LibExpect(m, <<AbsMat(g[1]), AbsMat(g[2])>>)
LibVerdict(m, x, y) ==
  LET e == TLCEval(LibExpect(m, x.a)) IN
  IF IsRaise(e) THEN (IF y.f = "raise" THEN "ok" ELSE "answered-instead-of-refusing")
  ELSE IF y.f = "raise" THEN "refused-valid-input"
  ELSE IF m \in Moves THEN (IF e.f = "V" THEN VecVerdict(e, y, "0", "0") ELSE MatVerdict(e, y, "0", "0"))
  ELSE IF m = "normalize_pure" THEN MatVerdict(e, y, REL, TINY)
  ELSE IF m \in {"dot", "dot_2d", "linear_kernel_pure"} THEN
       LET b == TLCEval(AbsExpect(m, x.a)) IN
       IF m = "dot" THEN (IF y.f = "V" /\ Len(y.v) = Len(e.v) /\ \A j \in 1..Len(e.v) : Within(y.v[j], e.v[j], b.v[j]) THEN "ok" ELSE "vector")
       ELSE LET v == MatVerdict(e, y, "0", "inf") IN
            IF v # "ok" THEN v
            ELSE IF \A i \in 1..NRows(e), j \in 1..e.n : Within(y.rows[i][j], e.rows[i][j], b.rows[i][j]) THEN "ok" ELSE "matrix"
  ELSE IF m = "cosine_distances_pure" THEN
       LET v == MatVerdict(e, y, REL, ABS) IN
       IF v # "ok" THEN v
       ELSE IF \E i \in 1..NRows(y), j \in 1..y.n : ~NLe("0", y.rows[i][j]) \/ ~NLe(y.rows[i][j], "2") THEN "distance-out-of-range"
       ELSE IF Flag(x.a[Len(x.a)], "self") /\ \E i \in 1..NRows(y) : ~NEq(y.rows[i][i], "0") THEN "distance-to-itself" ELSE "ok"
  ELSE IF e.f = "V" THEN VecVerdict(e, y, REL, ABS) ELSE MatVerdict(e, y, REL, ABS)

(* Is the meaning of a transformer given for this input?  A matrix of a      *)
(* width the model was not fitted on has no meaning, and only the models     *)
(* named in WidthOf promise to refuse it.                                    *)
DataKinds == {"std", "minmax", "maxabs", "norm", "onehot", "ordinal", "missind", "impute", "tfidf"}
RECURSIVE Defined(_, _)
RECURSIVE DefinedSteps(_, _)
DefinedSteps(ss, x) ==
  \/ ss = <<>> \/ IsRaise(x) \/ Refuses(ss[1], x)
  \/ Defined(ss[1], x) /\ (Len(ss) = 1 \/ DefinedSteps(Tail(ss), TLCEval(TransformM(ss[1], x))))
Defined(a, x) ==
  CASE a.k \in {"pass", "drop"} -> TRUE
    [] a.k = "pipe" -> DefinedSteps(a.steps, x)
    [] a.k = "union" -> \A i \in 1..Len(a.parts) : Defined(a.parts[i].art, x)
    [] a.k \in Vectorizers -> x.f = "T"
    [] a.k = "dictvec" -> x.f = "M"
    [] a.k \in DataKinds -> x.f \in {"D", "S"} /\ WellFormed(x) /\ (Has(a, "n") => a.n \in {-1, x.n})
    [] OTHER -> x.f \in {"D", "S"} /\ WellFormed(x)

(* must the question be refused / may it be answered at all?                *)
RECURSIVE MustRefuse(_, _, _)
MustRefuse(a, m, x) ==
  CASE a.k = "lib" -> IsRaise(LibExpect(m, x.a))
    [] ~Supported(a) -> TRUE
    [] ~Offers(a, m) -> TRUE
    [] a.k = "ft" -> FtRefuses(a, m, x)
    [] a.k = "pipe" -> \/ Refuses(a, x)
                       \/ /\ DefinedSteps(FrontSteps(a), x)
                          /\ LET v == TLCEval(FrontM(a, x)) IN IsRaise(v) \/ MustRefuse(FinalStep(a), m, v)
    [] m = "transform" -> Refuses(a, x) \/ (Defined(a, x) /\ IsRaise(TransformM(a, x)))
    [] OTHER -> Refuses(a, x)
Verdict(a, m, x, y) ==
  CASE a.k = "lib" -> LibVerdict(m, x, y)
    [] ~Supported(a) -> IF y.f = "raise" THEN "ok" ELSE "served-unsupported-model"
    [] ~Offers(a, m) -> IF y.f = "raise" THEN "ok" ELSE "served-unoffered-method"
    [] a.k = "ft" -> FtVerdict(a, m, x, y)
    [] m = "transform" ->
         LET e == TLCEval(TransformM(a, x)) IN
         IF IsRaise(e) THEN (IF y.f = "raise" THEN "ok" ELSE "answered-instead-of-refusing")
         ELSE IF y.f = "raise" THEN "refused-valid-input"
            ELSE MatVerdict(e, y, REL, IF Subtracts(a) THEN ABS ELSE TINY)
    [] OTHER ->
         LET b == LastArt(a)
             lx == TLCEval(IF Refuses(a, x) THEN Raise ELSE LastX(a, x))
             q == LastQ(a)
         IN  IF IsRaise(lx) \/ Refuses(b, lx)
             THEN (IF y.f = "raise" THEN "ok" ELSE "answered-instead-of-refusing")
             ELSE IF y.f = "raise" THEN "refused-valid-input"
             ELSE CASE m = "decision_function" -> ScoreVerdict(b, lx, y)
                    [] m = "predict" /\ b.k = "tree" /\ b.task = "r" -> ValueVerdict(b, lx, q, y)
                    [] m = "predict" -> LabelVerdict(b, lx, q, y)
                    [] m = "predict_proba" -> ProbaVerdict(b, lx, q, y)
                    [] m = "predict_log_proba" -> LogProbaVerdict(b, lx, q, y)
ServeVerdict(a, m, x, y) ==
  IF y.f = "raise"
  THEN IF Supported(a) /\ Offers(a, m) /\ ~MustRefuse(a, m, x) THEN "refused-valid-input" ELSE "ok"
  ELSE IF ~Supported(a) THEN "served-unsupported-model"
       ELSE IF ~Offers(a, m) THEN "served-unoffered-method" ELSE "ok"

(***************************************************************************)
(* Relations between answers.  They do not say which answer is right, only  *)
(* that two ways of asking agree; equal labels are not demanded where the   *)
(* model itself is within rounding of a tie.                                *)
(***************************************************************************)
LabelsAt(a, x) == LabelSets(LastArt(a), LastX(a, x), LastQ(a))
SameLabel(L, u, v) == u = v \/ L = {} \/ {u, v} \subseteq L
IsLabels(a, m) == m = "predict" /\ ~(LastArt(a).k = "tree" /\ LastArt(a).task = "r") /\ a.k # "ft"
SameSeq(u, v) == Len(u) = Len(v) /\ \A j \in 1..Len(u) : Near(u[j], v[j])
SameFt(u, v) == u.labels = v.labels /\ SameSeq(u.probs, v.probs)
Alike(a, m, x, y1, y2) ==
  IF y1 = y2 THEN "ok"
  ELSE IF IsLabels(a, m)
  THEN LET L == TLCEval(LabelsAt(a, x))
       IN IF y1.f = "V" /\ y2.f = "V" /\ Len(y1.v) = Len(y2.v) /\ \A i \in 1..Len(y1.v) : SameLabel(L[i], y1.v[i], y2.v[i])
          THEN "ok" ELSE "labels-differ"
  ELSE IF y1.f = "V" /\ y2.f = "V" THEN (IF SameSeq(y1.v, y2.v) THEN "ok" ELSE "values-differ")
  ELSE IF y1.f \in {"D", "S"} /\ y2.f \in {"D", "S"}
  THEN IF WellFormed(y1) /\ WellFormed(y2) /\ MatClose(y1, y2, REL, ABS) THEN "ok"
       ELSE IF m = "predict_log_proba" /\ Rows1(y1, NRows(y2)) /\ y2.f = "D"
               /\ \A i \in 1..NRows(y1) : /\ Len(y1.rows[i]) = Len(y2.rows[i])
                                           /\ \A c \in 1..Len(y1.rows[i]) : NClose(NExp(y1.rows[i][c]), NExp(y2.rows[i][c]), REL, "1/1000000000000000")
            THEN "ok" ELSE "matrices-differ"
  ELSE IF y1.f = "P" /\ y2.f = "P"
  THEN IF y1.list = y2.list /\ Len(y1.rows) = Len(y2.rows) /\ \A i \in 1..Len(y1.rows) : SameFt(y1.rows[i], y2.rows[i])
       THEN "ok" ELSE "predictions-differ"
  ELSE "forms-differ"
(* y: answer to the batch x; ys[p]: answer to row ix[p] of x alone           *)
RowOf(y, i) == CASE y.f = "V" -> Vec(<<y.v[i]>>)
                 [] y.f = "P" -> [y EXCEPT !.rows = <<y.rows[i]>>]
                 [] OTHER -> OnlyRow(y, i)
RowsIn(y) == IF y.f = "V" THEN Len(y.v) ELSE IF y.f \in {"D", "S", "P"} THEN Len(y.rows) ELSE -1
InputRows(x) == CASE x.f = "T" -> Len(x.docs) [] x.f = "F" -> Len(x.texts) [] OTHER -> Len(x.rows)
RowX(x, i) == CASE x.f = "T" -> [x EXCEPT !.docs = <<x.docs[i]>>] [] OTHER -> OnlyRow(x, i)
BatchOf(a, m, x, y, ys, ix) ==
  IF RowsIn(y) # InputRows(x) THEN "row-count"
  ELSE IF \E p \in 1..Len(ys) : RowsIn(ys[p]) # 1 THEN "row-count-of-single"
  ELSE IF \A p \in 1..Len(ys) :
            IF y.f = "P" THEN SameFt(y.rows[ix[p]], ys[p].rows[1])
            ELSE \/ RowOf(y, ix[p]) = ys[p]
                 \/ Alike(a, m, RowX(x, ix[p]), RowOf(y, ix[p]), ys[p]) = "ok"
       THEN "ok" ELSE "row-differs"
(* ys = <<probabilities, labels[, log-probabilities]>>                       *)
AllUnderflow(a, x) ==       \* the documented exception of one-vs-rest models
  LET b == LastArt(a) IN
  IF b.k = "linear" /\ Len(b.coef) > 1 /\ LinOvr(b)
  THEN LET S == LinScores(b, LastX(a, x)) IN {i \in 1..Len(S) : \A c \in 1..Len(S[i]) : NLe(S[i][c], "-700")}
  ELSE IF b.k = "avg" THEN {i \in 1..RowsOf(x) : ProbaM(b, LastX(a, OnlyRow(x, i)), FALSE)[1] = <<>>}
  ELSE {}
RECURSIVE LogSpace(_)
LogSpace(a) ==      \* log-probabilities may be computed without the probabilities
  CASE a.k = "nb" -> TRUE
    [] a.k = "pipe" -> LogSpace(FinalStep(a))
    [] a.k = "avg" -> \E i \in 1..Len(a.members) : a.members[i].art.k # "tree"
    [] OTHER -> FALSE
LogOf(p, y, slack) ==
  \/ NClose(y, NLog(p), REL, ABS)
  \/ slack /\ NEq(p, "0") /\ (y = "-inf" \/ NLe(y, "-690"))
  \/ slack /\ NLt(p, NExp("-690")) /\ NLe(y, "-680")
  \/ slack /\ ~NIsNan(y) /\ NClose(NExp(y), p, ABS, "1/1000000000000000")
ProbaAgree(a, x, ys) ==
  LET p == ys[1]  lab == ys[2]
      cl == ClassesOf(a)
      K == Len(cl)
      n == RowsOf(x)
      T == IF LastKind(a) = "xgb" THEN "1/500000" ELSE ABS
      Idx(v) == LET S == {c \in 1..K : cl[c] = v} IN IF S = {} THEN 0 ELSE CHOOSE c \in S : TRUE
      skip == TLCEval(AllUnderflow(a, x))
      J == (1..n) \ skip
  IN  CASE p.f # "D" \/ Len(p.rows) # n -> "proba-form"
        [] lab.f # "V" \/ Len(lab.v) # n -> "labels-form"
        [] \E i \in J : Len(p.rows[i]) # K -> "proba-per-class"
        [] \E i \in J : ~WellFormedRow(a, p.rows[i], K) -> "proba-ill-formed"
        [] \E i \in 1..n : Idx(lab.v[i]) = 0 -> "label-not-a-class"
        [] \E i \in J : ~NLe(NSub(MaxNum(p.rows[i]), T), p.rows[i][Idx(lab.v[i])]) -> "label-not-most-probable"
        [] Len(ys) > 2 /\ (ys[3].f # "D" \/ Len(ys[3].rows) # n \/ \E i \in J : Len(ys[3].rows[i]) # K) -> "log-proba-form"
        [] Len(ys) > 2 /\ (\E i \in J, c \in 1..K : ~LogOf(p.rows[i][c], ys[3].rows[i][c], LogSpace(LastArt(a)))) -> "log-proba-not-log"
        [] OTHER -> "ok"
=============================================================================
