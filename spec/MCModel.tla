------------------------------- MODULE MCModel -------------------------------
(***************************************************************************)
(* Every small model.                                                       *)
(*                                                                         *)
(* A behaviour writes down an instance digit by digit: the first digit      *)
(* chooses a shape of the family, the others its parameters; a complete     *)
(* tape is decoded into an artifact and a list of inputs, usually the whole *)
(* grid of rows (or all short documents).  Breadth first TLC enumerates     *)
(* every instance, with -simulate it draws some.                            *)
(*                                                                         *)
(* On every instance TLC checks what the specification itself must satisfy  *)
(* (the invariants below), and prints it; harness/mk.py installs it in real *)
(* source objects, which the real library converts and serves.              *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC

CONSTANTS Family, Shapes0      \* Shapes0: how many of the family's shapes are used (0: all)
FileChars == JsonDeserialize(IOEnv.CHARS)
M == INSTANCE Model WITH Chars <- FileChars
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Num

VARIABLES tape, inst
vars == <<tape, inst>>

(* ------------------------------- helpers -------------------------------- *)
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN <<<<>>>>       \* all sequences taking one element of each ss[i]
               ELSE LET rest == TLCEval(Product(Tail(ss)))
                    IN M!Concat([i \in 1..Len(ss[1]) |-> [j \in 1..Len(rest) |-> <<ss[1][i]>> \o rest[j]]])
GridX(n, vals) == M!Dense(n, TLCEval(Product([j \in 1..n |-> vals])))
Rep(n, v) == [i \in 1..n |-> v]
At(s, d) == s[d + 1]
B(d) == d = 1
Cut(t, from, len) == SubSeq(t, from, from + len - 1)
Num4 == <<"0", "1", "-1/2", "2">>
Labels(style, k) == CASE style = 0 -> SubSeq(<<"0", "1", "2">>, 1, k)
                      [] style = 1 -> SubSeq(<<"s:blue", "s:green", "s:red">>, 1, k)
                      [] style = 2 -> SubSeq(<<"-5", "10", "11">>, 1, k)

(* -------------------------------- linear -------------------------------- *)
LinVar == << <<"logistic", "ovr", "lbfgs", "none">>, <<"logistic", "multinomial", "lbfgs", "none">>, <<"logistic", "auto", "lbfgs", "none">>,
             <<"logistic", "auto", "liblinear", "none">>, <<"sgd", "none", "none", "log">>, <<"other", "ovr", "none", "squared_hinge">> >>
LinShapes == << <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>> >>
LinRad(s) == LET R == IF s[1] = 2 THEN 1 ELSE s[1] IN <<Len(LinVar), 3>> \o Rep(R * s[2], 3) \o Rep(R, 3)
LinG == <<"0", "1", "-1">>
LinArt(k, n, t) ==
  LET R == IF k = 2 THEN 1 ELSE k
      v == At(LinVar, t[1])
  IN [k |-> "linear", coef |-> [c \in 1..R |-> [j \in 1..n |-> At(LinG, t[2 + (c - 1) * n + j])]],
      b |-> [c \in 1..R |-> At(LinG, t[2 + R * n + c])], classes |-> Labels(t[2], k),
      est |-> v[1], multi |-> v[2], solver |-> v[3], loss |-> v[4], n |-> n]
LinBuild(s, t) == [art |-> LinArt(s[1], s[2], t), xs |-> <<GridX(s[2], Num4)>>]

(* --------------------------------- trees -------------------------------- *)
(* left, right, in the orders a source may number its nodes                 *)
Forms == << << <<-1>>, <<-1>> >>,
            << <<1, -1, -1>>, <<2, -1, -1>> >>,
            << <<1, 2, -1, -1, -1>>, <<4, 3, -1, -1, -1>> >>,
            << <<1, -1, 3, -1, -1>>, <<2, -1, 4, -1, -1>> >>,
            << <<1, 3, -1, -1, -1>>, <<2, 4, -1, -1, -1>> >>,
            << <<2, -1, -1>>, <<1, -1, -1>> >>,
            << <<1, 2, -1, -1, 5, -1, -1>>, <<4, 3, -1, -1, 6, -1, -1>> >>,
            << <<1, 3, 5, -1, -1, -1, -1>>, <<2, 4, 6, -1, -1, -1, -1>> >> >>
Inner(f) == Cardinality({i \in 1..Len(f[1]) : f[1][i] # -1})
LeavesOf(f) == Len(f[1]) - Inner(f)
ThrG == <<"-1/2", "0", "1/2">>
Wts(k) == IF k = 2 THEN << <<"1", "0">>, <<"0", "1">>, <<"1", "1">>, <<"1", "3">> >>
          ELSE << <<"1", "0", "0">>, <<"0", "2", "2">>, <<"1", "1", "1">>, <<"1", "0", "3">> >>
RegV == << <<"0">>, <<"1">>, <<"-3/2">>, <<"1/3">> >>
(* digits: per inner node feature (2), threshold (3); per leaf a value (4)   *)
TreeRad(f) == Rep(Inner(f), 2) \o Rep(Inner(f), 3) \o Rep(LeavesOf(f), 4)
MkTree(f, t, vals, classes, task, n) ==
  LET m == Len(f[1])
      Rank(i, P(_)) == Cardinality({j \in 1..i : P(j)})
      In(i) == f[1][i] # -1
      I == Inner(f)
      F(i) == IF In(i) THEN t[Rank(i, In)] ELSE -2
      T(i) == IF In(i) THEN At(ThrG, t[I + Rank(i, In)]) ELSE "-2"
      Lf(i) == ~In(i)
      V(i) == IF In(i) THEN vals[1] ELSE At(vals, t[2 * I + Rank(i, Lf)])
  IN [k |-> "tree", left |-> f[1], right |-> f[2], feat |-> [i \in 1..m |-> F(i)], thr |-> [i \in 1..m |-> T(i)],
      val |-> [i \in 1..m |-> V(i)], classes |-> classes, task |-> task, outputs |-> 1, n |-> n]
TreeShapes == M!Concat([i \in 1..Len(Forms) |-> << <<Forms[i], 2>>, <<Forms[i], 0>>, <<Forms[i], 3>> >>])
TreeSRad(s) == <<3>> \o TreeRad(s[1])
TreeX == GridX(2, <<"-1", "-1/2", "0", "1/2", "1">>)
TreeBuild(s, t) ==
  [art |-> IF s[2] = 0 THEN MkTree(s[1], Tail(t), RegV, <<"0", "1">>, "r", 2)
           ELSE MkTree(s[1], Tail(t), Wts(s[2]), Labels(t[1], s[2]), "c", 2),
   xs |-> <<TreeX>>]

(* ------------------------------- ensembles ------------------------------ *)
(* members 1..3, all stumps; bagging members see feats, know classes pos     *)
Stump == Forms[2]
Feats == << <<0, 1>>, <<1, 0>>, <<1>>, <<0>>, <<1, 1>> >>
PosG == << <<0, 1>>, <<0>>, <<1>> >>
Wts1 == << <<"1">>, <<"3">>, <<"1">>, <<"2">> >>
AvgShapes == << <<"forest", 1>>, <<"bag", 1>>, <<"forest", 2>>, <<"bag", 2>>, <<"forest", 3>>, <<"bag", 3>> >>
StumpRad == TreeRad(Stump)
AvgRad(s) == <<2>> \o M!Concat([m \in 1..s[2] |-> (IF s[1] = "bag" THEN <<5, 3>> ELSE <<>>) \o StumpRad])
AvgBuild(s, t) ==
  LET per == Len(StumpRad) + (IF s[1] = "bag" THEN 2 ELSE 0)
      D(m) == Cut(t, 2 + (m - 1) * per, per)
      Mem(m) == LET d == D(m) IN
        IF s[1] = "forest" THEN [art |-> MkTree(Stump, d, Wts(2), <<"0", "1">>, "c", 2)]
        ELSE LET fs == At(Feats, d[1])
                 ps == At(PosG, d[2])
                 dd == IF Len(fs) = 1 THEN <<0>> \o Cut(d, 4, 3) ELSE Cut(d, 3, 4)
             IN [art |-> MkTree(Stump, dd, IF Len(ps) = 2 THEN Wts(2) ELSE Wts1, [i \in 1..Len(ps) |-> NOfInt(ps[i])], "c", Len(fs)),
                 feats |-> fs, pos |-> ps]
  IN [art |-> [k |-> "avg", members |-> [m \in 1..s[2] |-> Mem(m)], classes |-> Labels(t[1], 2), n |-> 2], xs |-> <<TreeX>>]

(* ---------------------------- gradient boosting ------------------------- *)
Zero == [k |-> "zero"]
Prior(p) == [k |-> "dummy", strategy |-> "prior", prior |-> p, classes |-> SubSeq(<<"0", "1", "2">>, 1, Len(p))]
Inits(K) == IF K = 1 THEN <<Zero, Prior(<<"1/2", "1/2">>), Prior(<<"1/4", "3/4">>)>>
            ELSE <<Zero, Prior(<<"1/4", "1/4", "1/2">>), Prior(<<"1/2", "1/4", "1/4">>)>>
GbShapes == << <<1, 1>>, <<2, 1>>, <<1, 3>> >>
GbLr == <<"1", "1/2", "3">>
GbRad(s) == <<3, 2, 3, 3>> \o M!Concat([m \in 1..(s[1] * s[2]) |-> StumpRad])
RegG == << <<"0">>, <<"1">>, <<"-1">>, <<"5/2">> >>
GbBuild(s, t) ==
  LET S == s[1]  K == s[2]  p == Len(StumpRad)
      T(q, c) == MkTree(Stump, Cut(t, 5 + ((q - 1) * K + c - 1) * p, p), RegG, <<"0", "1">>, "r", 2)
  IN [art |-> [k |-> "gb", loss |-> IF t[2] = 1 /\ K = 1 THEN "exponential" ELSE "deviance", lr |-> At(GbLr, t[3]),
               stages |-> [q \in 1..S |-> [c \in 1..K |-> T(q, c)]], init |-> At(Inits(K), t[4]),
               classes |-> Labels(t[1], IF K = 1 THEN 2 ELSE K), n |-> 2],
      xs |-> <<TreeX>>]

(* --------------------------------- xgboost ------------------------------ *)
XForms == << Forms[1], Forms[2], Forms[5], Forms[8] >>
XgbShapes == << <<2, 1, 1>>, <<3, 1, 1>>, <<2, 2, 1>>, <<2, 1, 3>>, <<4, 1, 1>>, <<1, 2, 1>> >>      \* form, rounds, classes
XRad(f) == Rep(Inner(f), 2) \o Rep(Inner(f), 3) \o Rep(Inner(f), 2) \o Rep(LeavesOf(f), 4)
XgbRad(s) == <<2, 2, IF s[2] > 1 THEN 2 ELSE 1>> \o M!Concat([m \in 1..(s[2] * s[3]) |-> XRad(XForms[s[1]])])
XTree(f, d) ==
  LET I == Inner(f)
      m == Len(f[1])
      In(i) == f[1][i] # -1
      Lf(i) == ~In(i)
      Rank(i, P(_)) == Cardinality({j \in 1..i : P(j)})
      F(i) == IF In(i) THEN d[Rank(i, In)] ELSE 0
      Def(i) == IF ~In(i) THEN -1 ELSE IF d[2 * I + Rank(i, In)] = 0 THEN f[1][i] ELSE f[2][i]
      V(i) == IF In(i) THEN "0" ELSE At(<<"0", "1", "-1", "5/2">>, d[3 * I + Rank(i, Lf)])
      T(i) == IF In(i) THEN At(ThrG, d[I + Rank(i, In)]) ELSE V(i)
  IN [left |-> f[1], right |-> f[2], def |-> [i \in 1..m |-> Def(i)], feat |-> [i \in 1..m |-> F(i)],
      thr |-> [i \in 1..m |-> T(i)], val |-> [i \in 1..m |-> V(i)]]
XgbBuild(s, t) ==
  LET f == XForms[s[1]]  p == Len(XRad(f))
      n == s[2] * s[3]
  IN [art |-> [k |-> "xgb", obj |-> IF s[3] = 1 THEN "binary:logistic" ELSE "multi:softprob", booster |-> "gbtree",
               trees |-> [m \in 1..n |-> XTree(f, Cut(t, 4 + (m - 1) * p, p))], rounds |-> s[2] - t[3],       \* the best round may be an earlier one
               margin |-> IF t[2] = 1 THEN NLog("3") ELSE "0", missing |-> IF t[1] = 1 THEN "-1/2" ELSE "nan",
               classes |-> SubSeq(<<"0", "1", "2">>, 1, IF s[3] = 1 THEN 2 ELSE 3), n |-> 2],
      xs |-> <<GridX(2, <<"nan", "-1/2", "0", "1/2", "-1">>)>>]

(* ------------------------ naive Bayes and the dummy --------------------- *)
NbShapes == << <<"g", 2, 1>>, <<"m", 2, 1>>, <<"c", 2, 2>>, <<"g", 2, 2>>, <<"m", 3, 1>>, <<"m", 2, 2>>, <<"g", 3, 1>>, <<"c", 3, 1>> >>
NbRad(s) == <<3, 3>> \o (IF s[1] = "g" THEN Rep(s[2] * s[3], 3) \o Rep(s[2] * s[3], 3) ELSE Rep(s[2] * s[3], 4))
NbPri(k) == IF k = 2 THEN << <<"1/2", "1/2">>, <<"1/4", "3/4">>, <<"7/8", "1/8">> >>
            ELSE << <<"1/4", "1/4", "1/2">>, <<"1/2", "1/4", "1/4">>, <<"1/8", "3/4", "1/8">> >>
NbBuild(s, t) ==
  LET k == s[2]  n == s[3]
      Mx(from, g) == [c \in 1..k |-> [j \in 1..n |-> At(g, t[from + (c - 1) * n + j])]]
      pr == At(NbPri(k), t[2])
  IN [art |-> IF s[1] = "g" THEN [k |-> "nb", nb |-> "g", prior |-> pr, th |-> Mx(2, <<"0", "1", "-3">>), sg |-> Mx(2 + k * n, <<"1", "1/4", "64">>),
                                  classes |-> Labels(t[1], k), n |-> n]
              ELSE [k |-> "nb", nb |-> s[1], lprior |-> [c \in 1..k |-> At(<<"-1", "-1/2", "-3">>, (t[2] + c) % 3)],
                    flp |-> Mx(2, <<"-1", "-1/2", "0", "-20">>), classes |-> Labels(t[1], k), n |-> n],
      xs |-> IF s[1] = "g" THEN <<GridX(n, <<"0", "1", "-2", "100">>)>> ELSE <<GridX(n, <<"0", "1", "3/2", "100">>)>>]
DumShapes == << 1, 2, 3 >>
DumRad(s) == <<3>> \o Rep(s, 4)
DumBuild(s, t) ==
  LET w == [c \in 1..s |-> NOfInt(t[1 + c] + (IF c = 1 THEN 1 ELSE 0))]
      tot == NSum(w)
      two == [c \in 1..s |-> At(<<"1/2", "1/4", "1/4">>, c - 1)]
  IN [art |-> [k |-> "dummy", strategy |-> "prior", prior |-> IF s = 1 THEN <<"1">> ELSE [c \in 1..s |-> NDiv(w[c], tot)],
               classes |-> Labels(t[1], s)],
      xs |-> <<GridX(1, <<"0", "1">>)>>]

(* ------------------------------- transformers --------------------------- *)
ScShapes == << <<"std", 1>>, <<"minmax", 1>>, <<"maxabs", 1>>, <<"norm", 1>>, <<"norm", 2>>, <<"norm", 3>>, <<"std", 2>>, <<"minmax", 2>>, <<"maxabs", 2>> >>
ScRad(s) == CASE s[1] = "std" -> <<2, 2>> \o Rep(s[2], 4) \o Rep(s[2], 4)
              [] s[1] = "minmax" -> Rep(s[2], 4) \o Rep(s[2], 4)
              [] s[1] = "maxabs" -> Rep(s[2], 4)
              [] s[1] = "norm" -> <<3>>
ScaleG == <<"1", "2", "1/8", "1/1048576">>
MeanG == <<"0", "1", "-3/2", "1048576">>
ScArt(s, t) ==
  LET n == s[2]
      V(from, g) == [j \in 1..n |-> At(g, t[from + j])]
  IN CASE s[1] = "std" -> [k |-> "std", with_mean |-> B(t[1]), with_std |-> B(t[2]), mean |-> V(2, MeanG), scale |-> IF B(t[2]) THEN V(2 + n, ScaleG) ELSE <<>>, n |-> n]
       [] s[1] = "minmax" -> [k |-> "minmax", scale |-> V(0, ScaleG), min |-> V(n, MeanG), n |-> n]
       [] s[1] = "maxabs" -> [k |-> "maxabs", scale |-> V(0, ScaleG), n |-> n]
       [] s[1] = "norm" -> [k |-> "norm", norm |-> At(<<"l1", "l2", "max">>, t[1])]
ScBuild(s, t) == [art |-> ScArt(s, t), xs |-> <<GridX(s[2], <<"0", "1", "-1/2", "1048576", "-1/1048576">>)>>]

CatG == << <<"s:a">>, <<"s:a", "s:b">>, <<"1", "2">>, <<"0">>, <<"-1", "0", "3">>, <<"s:", "s:A", "s:a">> >>
EncShapes == << <<"onehot", 1>>, <<"ordinal", 1>>, <<"onehot", 2>>, <<"ordinal", 2>>, <<"onehot", 3>>, <<"ordinal", 3>> >>
EncRad(s) == (IF s[1] = "onehot" THEN <<2, 2>> ELSE <<>>) \o Rep(s[2], Len(CatG))
EncBuild(s, t) ==
  LET n == s[2]  hot == s[1] = "onehot"
      cats == [j \in 1..n |-> At(CatG, t[(IF hot THEN 2 ELSE 0) + j])]
      known == M!Dense(n, Product(cats))
      odd == M!Dense(n, Product([j \in 1..n |-> <<cats[j][1], "s:zz", "7">>]))
      base == [k |-> s[1], cats |-> cats, n |-> n]
  IN [art |-> IF hot THEN base @@ [unknown |-> IF B(t[1]) THEN "error" ELSE "ignore", sparse |-> B(t[2])] ELSE base,
      xs |-> <<known, odd>> \o [i \in 1..M!Min2(3, M!NRows(odd)) |-> M!OnlyRow(odd, i)]]

MarkG == <<"nan", "-1", "0">>
StatG == <<"0", "5/2", "nan", "1">>
Subsets2(n) == IF n = 1 THEN << <<0>>, <<>> >> ELSE << <<0, 1>>, <<0>>, <<1>>, <<>> >>
ImpShapes == << <<"impute", 1>>, <<"missind", 1>>, <<"impute", 2>>, <<"missind", 2>> >>
ImpRad(s) == <<3, Len(Subsets2(s[2])), 2>> \o (IF s[1] = "impute" THEN <<4, 2>> \o Rep(s[2], 4) ELSE <<2>>)
ImpBuild(s, t) ==
  LET n == s[2]
      mark == At(MarkG, t[1])
      Ind(f, err) == [k |-> "missind", features |-> f, cols |-> IF f = "all" THEN [j \in 1..n |-> j - 1] ELSE At(Subsets2(n), t[2]), marker |-> mark, err |-> err, n |-> n]
      strat == At(<<"mean", "median", "most_frequent", "constant">>, t[4])
      base == [k |-> "impute", strategy |-> strat, marker |-> mark, n |-> n,
               stats |-> [j \in 1..n |-> IF strat = "constant" THEN At(<<"0", "5/2", "-7", "1">>, t[6]) ELSE At(StatG, t[5 + j])]]
      vals == <<"1", "-1", "0", "1/3">> \o (IF mark = "nan" THEN <<"nan">> ELSE <<>>)
  IN [art |-> IF s[1] = "missind" THEN Ind(IF B(t[4]) THEN "all" ELSE "missing-only", B(t[3]))
              ELSE IF B(t[5]) THEN base @@ [ind |-> Ind("missing-only", FALSE)] ELSE base,
      xs |-> <<GridX(n, vals)>> \o [i \in 1..2 |-> M!Dense(n, <<Rep(n, IF i = 1 THEN mark ELSE "1/3")>>)]]

(* ---------------------------------- text -------------------------------- *)
RECURSIVE Strings(_, _)
Strings(al, n) == IF n = 0 THEN <<<<>>>>
                  ELSE LET r == TLCEval(Strings(al, n - 1))
                           top == SelectSeq(r, LAMBDA s : Len(s) = n - 1)
                       IN r \o M!Concat([i \in 1..Len(top) |-> [j \in 1..Len(al) |-> Append(top[i], al[j])]])
Alpha == << <<97, 98, 32>>, <<65, 233, 97, 32>>, <<97, 46, 10, 32>>, <<97, 769, 304, 32>> >>
Grams == << <<1, 1>>, <<1, 2>>, <<2, 2>>, <<1, 3>>, <<2, 4>> >>
Ana == << <<"word", "w", 2>>, <<"word", "w", 1>>, <<"word", "s", 1>>, <<"char", "w", 2>>, <<"char_wb", "w", 2>> >>
TxtShapes == [i \in 1..(Len(Ana) * Len(Alpha)) |-> <<((i - 1) % Len(Ana)) + 1, ((i - 1) \div Len(Ana)) + 1>>]
TxtLen == 4
OptRad == <<Len(Grams), 2, 3, 3>>
Opt(s, t) ==
  LET an == Ana[s[1]]  g == At(Grams, t[1])
  IN [lower |-> B(t[2]), accents |-> At(<<"none", "ascii", "unicode">>, t[3]), tok |-> an[2], tokmin |-> an[3], cap |-> 0, analyzer |-> an[1],
      lo |-> g[1], hi |-> g[2], stop |-> IF an[1] # "word" \/ t[4] = 0 THEN <<>> ELSE IF t[4] = 1 THEN << <<97, 97>> >> ELSE << <<97>>, <<98, 97>> >>]
Docs(s) == Strings(Alpha[s[2]], IF Len(Alpha[s[2]]) = 3 THEN TxtLen + 1 ELSE TxtLen)
SomeDocs(s, d) == LET all == TLCEval(Docs(s)) IN       \* a third of them, spread
  TLCEval([i \in 1..(Len(all) \div 3) |-> all[3 * i - d]])
TermsSeq(o, ds) == LET S == UNION {ToSet(M!Terms(o, ds[i])) : i \in 1..Len(ds)} IN SetToSeq(S)
(* vocabularies: every term, every other one, in different column orders     *)
VocabOf(o, ds, v) ==
  LET all == TLCEval(TermsSeq(o, ds))
      cut == IF Len(all) > 40 THEN SubSeq(all, 1, 40) ELSE all
      sel == IF v = 1 /\ Len(cut) > 1 THEN [i \in 1..(Len(cut) \div 2) |-> cut[2 * i]] ELSE cut
      m == Len(sel)
  IN [terms |-> TLCEval([i \in 1..m |-> sel[IF v = 2 THEN m + 1 - i ELSE i]]), index |-> [i \in 1..m |-> i - 1]]
CountArt(s, t, d) ==
  LET o == Opt(s, t)
      ds == SomeDocs(s, d)
      v == VocabOf(o, ds, t[6])
  IN [k |-> "count", opt |-> o, binary |-> B(t[5]), n |-> Len(v.terms), terms |-> v.terms, index |-> v.index]
TextX(ds) == [f |-> "T", docs |-> ds]
CountRad(s) == OptRad \o <<2, 3, 3>>
CountBuild(s, t) == LET a == CountArt(s, t, t[7]) IN [art |-> a, xs |-> <<TextX(SomeDocs(s, t[7]))>>]
NormG == <<"none", "l1", "l2">>
TfRad(s) == OptRad \o <<2, 3, 3, 2, 2, 3>>
IdfG == <<"1", "2", "3/2">>
Tfidf(use, sub, norm, n) == [k |-> "tfidf", use_idf |-> use, sublinear |-> sub, norm |-> norm, n |-> IF use THEN n ELSE -1,
                             idf |-> IF use THEN [j \in 1..n |-> At(IdfG, j % 3)] ELSE <<>>]
TfBuild(s, t) == LET a == CountArt(s, t, t[7]) IN
  [art |-> [a EXCEPT !.k = "tfidfvec"] @@ [tfidf |-> Tfidf(B(t[8]), B(t[9]), At(NormG, t[10]), a.n)], xs |-> <<TextX(SomeDocs(s, t[7]))>>]
TfmShapes == << 1, 2, 3 >>
TfmRad(s) == <<2, 2, 3>>
TfmBuild(s, t) == [art |-> Tfidf(B(t[1]), B(t[2]), At(NormG, t[3]), s), xs |-> <<GridX(s, <<"0", "1", "2", "7", "1/4">>)>>]
HashN == <<1, 2, 3, 7, 8, 1048576>>
HashRad(s) == OptRad \o <<2, 2, 3, 3, Len(HashN)>>
HashBuild(s, t) ==
  [art |-> [k |-> "hashvec", opt |-> Opt(s, t), n |-> At(HashN, t[9]), sign |-> B(t[5]), binary |-> B(t[6]), norm |-> At(NormG, t[8])],
   xs |-> <<TextX(SomeDocs(s, t[7]))>>]

(* --------------------------------- mappings ------------------------------ *)
DictNames == << <<"a", "b">>, <<"a=x", "b">>, <<"b", "a=x", "a=y">>, <<"b=x", "a">>, <<"a:x", "a=y", "a">>, <<"a">> >>
DictShapes == [i \in 1..Len(DictNames) |-> DictNames[i]]
DictRad(s) == <<2, 2, Len(s)>>
Cells == << <<"-">>, <<"n", "2">>, <<"n", "0">>, <<"s", "x">>, <<"s", "y">> >>
DictBuild(s, t) ==
  LET n == Len(s)
      row(p) == LET ks == SelectSeq(<<1, 2>>, LAMBDA q : p[q][1] # "-")
                IN [keys |-> [i \in 1..Len(ks) |-> At(<<"a", "b">>, ks[i] - 1)], vals |-> [i \in 1..Len(ks) |-> p[ks[i]][2]],
                    str |-> [i \in 1..Len(ks) |-> p[ks[i]][1] = "s"]]
      all == TLCEval(Product(<<Cells, Cells>>))
  IN [art |-> [k |-> "dictvec", names |-> s, cols |-> [i \in 1..n |-> (i - 1 + t[3]) % n], sep |-> IF B(t[1]) THEN "=" ELSE ":",
               sparse |-> B(t[2]), n |-> n],
      xs |-> <<[f |-> "M", rows |-> [i \in 1..Len(all) |-> row(all[i])]]>> \o [i \in 1..3 |-> [f |-> "M", rows |-> <<row(all[7 * i])>>]]]

(* ------------------------------- composition ----------------------------- *)
Lib == << [k |-> "std", with_mean |-> TRUE, with_std |-> TRUE, mean |-> <<"1", "0">>, scale |-> <<"2", "1/2">>, n |-> 2],
          [k |-> "minmax", scale |-> <<"1/2", "4">>, min |-> <<"0", "-1">>, n |-> 2],
          [k |-> "norm", norm |-> "l1"], [k |-> "pass"],
          [k |-> "maxabs", scale |-> <<"4", "1/2">>, n |-> 2],
          [k |-> "impute", strategy |-> "constant", marker |-> "0", n |-> 2, stats |-> <<"9", "9">>] >>
LastG(c) == << [k |-> "linear", coef |-> << <<"1", "-1">> >>, b |-> <<"1/2">>, classes |-> c, est |-> "logistic", multi |-> "ovr", solver |-> "lbfgs", loss |-> "none", n |-> 2],
              [k |-> "linear", coef |-> << <<"2", "1">> >>, b |-> <<"-1">>, classes |-> c, est |-> "other", multi |-> "ovr", solver |-> "none", loss |-> "squared_hinge", n |-> 2],
              MkTree(Forms[3], <<0, 1, 1, 2, 0, 1, 3>>, Wts(2), c, "c", 2),
              MkTree(Forms[2], <<1, 0, 1, 2>>, RegV, <<"0", "1">>, "r", 2),
              [k |-> "nb", nb |-> "g", prior |-> <<"1/4", "3/4">>, th |-> << <<"0", "1">>, <<"1", "-1">> >>, sg |-> << <<"1", "1/4">>, <<"1", "1">> >>, classes |-> c, n |-> 2],
              [k |-> "dummy", strategy |-> "prior", prior |-> <<"1/4", "3/4">>, classes |-> c],
              [k |-> "tfidf", use_idf |-> TRUE, sublinear |-> FALSE, norm |-> "none", n |-> 2, idf |-> <<"2", "3">>],
              [k |-> "pass"] >>
PipeShapes == <<0, 1, 2, 3, 4>>            \* how many steps before the last one; 4: a pipeline in a pipeline
PipeRad(s) == <<3, 8>> \o Rep(IF s = 4 THEN 3 ELSE s, Len(Lib))
PipeX == GridX(2, <<"0", "1", "-3", "1/2">>)
PipeOf(ss) == [k |-> "pipe", steps |-> ss]
PipeBuild(s, t) ==
  LET front == [i \in 1..(Len(t) - 2) |-> At(Lib, t[2 + i])]
      last == At(LastG(Labels(t[1], 2)), t[2])
  IN [art |-> IF s = 4 THEN PipeOf(<<PipeOf(SubSeq(front, 1, 2)), PipeOf(<<front[3], last>>)>>) ELSE PipeOf(Append(front, last)),
      xs |-> <<PipeX>>]
Parts == <<Lib[1], Lib[2], Lib[3], Lib[5], [k |-> "drop"],
           PipeOf(<<Lib[6], Lib[1]>>), [k |-> "onehot", cats |-> << <<"0", "1">>, <<"1", "1/2">> >>, n |-> 2, unknown |-> "ignore", sparse |-> TRUE]>>
WgtG == <<"none", "2", "0", "-1/2">>
UniShapes == <<1, 2, 3>>
UniRad(s) == <<2>> \o Rep(s, Len(Parts)) \o Rep(s, Len(WgtG))
UniOf(ps) == [k |-> "union", parts |-> ps]
UniBuild(s, t) ==
  LET ps == [i \in 1..s |-> [art |-> At(Parts, t[1 + i]), w |-> At(WgtG, t[1 + s + i])]]
  IN [art |-> IF B(t[1]) THEN UniOf(<<[art |-> UniOf(ps), w |-> "3"], [art |-> Lib[1], w |-> "none"]>>) ELSE UniOf(ps), xs |-> <<PipeX>>]

(* -------------------------------- fastText ------------------------------- *)
FtWordsG == << <<97>>, <<98>>, <<60, 47, 115, 62>>, <<97, 98>> >>
FtVecG == << <<"1", "0">>, <<"-1", "2">>, <<"1/2", "1/2">>, <<"0", "-4">> >>
FtShapes == << <<"sup", 2, 2>>, <<"uns", 2, 0>>, <<"sup", 3, 3>>, <<"uns", 3, 0>>, <<"sup", 3, 2>>, <<"sup", 1, 1>> >>       \* words, labels
FtRad(s) == Rep(s[2], 4) \o (IF s[1] = "sup" THEN Rep(s[3], 4) \o <<3>> ELSE <<2>>)
FtTexts == LET ws == << <<97>>, <<98>>, <<122>>, <<97, 98>> >>
               seqs == << <<>> >> \o Product(<<ws>>) \o Product(<<ws, ws>>)
           IN [i \in 1..Len(seqs) |-> M!FoldLeft(LAMBDA a, w : a \o w \o <<32>>, IF i % 2 = 0 THEN <<9>> ELSE <<>>, seqs[i])]
FtBuild(s, t) ==
  LET sup == s[1] = "sup"
      W == IF sup THEN SubSeq(<<FtWordsG[1], FtWordsG[3], FtWordsG[2]>>, 1, s[2]) ELSE SubSeq(<<FtWordsG[1], FtWordsG[2], FtWordsG[4]>>, 1, s[2])
      L == SubSeq(<<"__label__b", "__label__a", "__label__c">>, 1, s[3])
      F(ts, k, thr, l) == [f |-> "F", texts |-> ts, list |-> l, kk |-> k, thr |-> thr]
      ks == <<1, 2, -1, 5>>
      thrs == <<"0", "1/4", "1/2">>
  IN [art |-> [k |-> "ft", words |-> W, inm |-> [i \in 1..s[2] |-> At(FtVecG, t[i])], labels |-> L,
               outm |-> [c \in 1..s[3] |-> At(FtVecG, t[s[2] + c])], dim |-> 2, sup |-> sup, loss |-> IF sup THEN "softmax" ELSE "ns", maxn |-> 0, ngrams |-> 1],
      xs |-> IF sup THEN [i \in 1..4 |-> F(FtTexts, ks[i], At(thrs, t[Len(t)]), TRUE)] \o [i \in 1..Len(FtTexts) |-> F(<<FtTexts[i]>>, ks[(i % 4) + 1], "0", FALSE)]
             ELSE [i \in 1..Len(FtTexts) |-> F(<<FtTexts[i]>>, 1, "0", FALSE)]]

(* ---------------------------- matrix functions --------------------------- *)
LibG == <<"0", "-1", "2">>
LibShapes == << <<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<2, 2, 2>>, <<1, 3, 2>>, <<3, 1, 2>> >>       \* rows of A, columns, rows of B
LibRad(s) == Rep(s[1] * s[2] + s[3] * s[2], 3)
LibBuild(s, t) ==
  LET Mx(r, from) == M!Dense(s[2], [i \in 1..r |-> [j \in 1..s[2] |-> At(LibG, t[from + (i - 1) * s[2] + j])]])
  IN [art |-> [k |-> "lib"], xs |-> <<Mx(s[1], 0), Mx(s[3], s[1] * s[2])>>]

(* -------------------------------- families ------------------------------- *)
FamShapes ==
  CASE Family = "linear" -> LinShapes [] Family = "tree" -> TreeShapes [] Family = "forest" -> AvgShapes [] Family = "gb" -> GbShapes
    [] Family = "xgb" -> XgbShapes [] Family = "nb" -> NbShapes [] Family = "dummy" -> DumShapes [] Family = "scaler" -> ScShapes
    [] Family = "encoder" -> EncShapes [] Family = "impute" -> ImpShapes [] Family \in {"count", "tfidfvec", "hashing"} -> TxtShapes
    [] Family = "tfidf" -> TfmShapes [] Family = "dictvec" -> DictShapes [] Family = "pipe" -> PipeShapes [] Family = "union" -> UniShapes
    [] Family = "fasttext" -> FtShapes [] Family = "lib" -> LibShapes
Radix(s) ==
  CASE Family = "linear" -> LinRad(s) [] Family = "tree" -> TreeSRad(s) [] Family = "forest" -> AvgRad(s) [] Family = "gb" -> GbRad(s)
    [] Family = "xgb" -> XgbRad(s) [] Family = "nb" -> NbRad(s) [] Family = "dummy" -> DumRad(s) [] Family = "scaler" -> ScRad(s)
    [] Family = "encoder" -> EncRad(s) [] Family = "impute" -> ImpRad(s) [] Family = "count" -> CountRad(s) [] Family = "tfidfvec" -> TfRad(s)
    [] Family = "hashing" -> HashRad(s) [] Family = "tfidf" -> TfmRad(s) [] Family = "dictvec" -> DictRad(s) [] Family = "pipe" -> PipeRad(s)
    [] Family = "union" -> UniRad(s) [] Family = "fasttext" -> FtRad(s) [] Family = "lib" -> LibRad(s)
Build(s, t) ==
  CASE Family = "linear" -> LinBuild(s, t) [] Family = "tree" -> TreeBuild(s, t) [] Family = "forest" -> AvgBuild(s, t) [] Family = "gb" -> GbBuild(s, t)
    [] Family = "xgb" -> XgbBuild(s, t) [] Family = "nb" -> NbBuild(s, t) [] Family = "dummy" -> DumBuild(s, t) [] Family = "scaler" -> ScBuild(s, t)
    [] Family = "encoder" -> EncBuild(s, t) [] Family = "impute" -> ImpBuild(s, t) [] Family = "count" -> CountBuild(s, t) [] Family = "tfidfvec" -> TfBuild(s, t)
    [] Family = "hashing" -> HashBuild(s, t) [] Family = "tfidf" -> TfmBuild(s, t) [] Family = "dictvec" -> DictBuild(s, t) [] Family = "pipe" -> PipeBuild(s, t)
    [] Family = "union" -> UniBuild(s, t) [] Family = "fasttext" -> FtBuild(s, t) [] Family = "lib" -> LibBuild(s, t)

(* -------------------------------- the machine ---------------------------- *)
None == [art |-> [k |-> "none"], xs |-> <<>>]
NShapes == IF Shapes0 = 0 THEN Len(FamShapes) ELSE M!Min2(Shapes0, Len(FamShapes))
Init == tape = <<>> /\ inst = None
Choose == /\ tape = <<>> /\ \E s \in 1..NShapes : tape' = <<s>>
          /\ UNCHANGED inst
Digit == /\ tape # <<>> /\ inst = None
         /\ LET r == TLCEval(Radix(FamShapes[tape[1]])) IN
              /\ Len(tape) <= Len(r)
              /\ \E d \in 0..(r[Len(tape)] - 1) : tape' = Append(tape, d)
         /\ UNCHANGED inst
Finish == /\ tape # <<>> /\ inst = None
          /\ Len(tape) = 1 + Len(Radix(FamShapes[tape[1]]))
          /\ inst' = TLCEval(Build(FamShapes[tape[1]], Tail(tape)))
          /\ UNCHANGED tape
Next == Choose \/ Digit \/ Finish
Spec == Init /\ [][Next]_vars
Ready == inst # None
A == inst.art
Model == Ready /\ A.k \notin {"lib", "ft"}
Data(x) == x.f \in {"D", "S"}

(* ------------------ what the specification itself satisfies -------------- *)
Methods == {"predict", "predict_proba", "predict_log_proba", "decision_function", "transform"}
Q == M!LastQ(A)
Fst(S) == CHOOSE v \in S : TRUE
(* the answer the specification expects; Nothing when a row is not judged    *)
Nothing == [f |-> "none"]
Full(P) == \A i \in 1..Len(P) : P[i] # <<>>
Answer(a, m, x) ==
  IF M!MustRefuse(a, m, x) THEN M!Raise
  ELSE IF m = "transform" THEN M!TransformM(a, x)
  ELSE LET b == M!LastArt(a)
           y == TLCEval(M!LastX(a, x))
           q == M!LastQ(a)
       IN CASE m = "decision_function" -> LET S == M!LinScores(b, y) IN IF Len(b.coef) = 1 THEN M!Vec([i \in 1..Len(S) |-> S[i][1]]) ELSE M!Dense(Len(b.classes), S)
            [] m = "predict" /\ b.k = "tree" /\ b.task = "r" -> LET L == M!TreeValues(b, y, q) IN IF Full(L) THEN M!Vec([i \in 1..Len(L) |-> L[i][1]]) ELSE Nothing
            [] m = "predict" -> LET L == M!LabelSets(b, y, q) IN IF \A i \in 1..Len(L) : L[i] # {} THEN M!Vec([i \in 1..Len(L) |-> Fst(L[i])]) ELSE Nothing
            [] OTHER -> LET P == M!ProbaM(b, y, q) IN
                        IF ~Full(P) THEN Nothing
                        ELSE IF m = "predict_proba" THEN M!Dense(Len(b.classes), P)
                        ELSE M!Dense(Len(b.classes), IF b.k = "nb" THEN M!NbLog(b, y) ELSE [i \in 1..Len(P) |-> M!Map(NLog, P[i])])
Asked == {m \in Methods : M!Offers(A, m)}
(* the judge accepts the meaning it defines ...                              *)
Accepts == Model => \A m \in Asked, p \in 1..Len(inst.xs) :
             LET y == TLCEval(Answer(A, m, inst.xs[p])) IN y = Nothing \/ M!Verdict(A, m, inst.xs[p], y) = "ok"
(* ... and rejects it with the last number a little off, a row missing, a     *)
(* label exchanged, an answer where an error is due, an error where an       *)
(* answer is due                                                             *)
Off(v) == IF v = "inf" \/ v = "-inf" \/ NIsNan(v) THEN "0" ELSE NAdd(v, NAdd("1/1000", NMul("1/1000", NAbs(v))))
Spoiled(m, y) ==
  CASE y.f = "raise" -> {M!Vec(<<"0">>), M!Dense(1, << <<"0">> >>)}
    [] y.f = "V" /\ m = "predict" /\ Len(y.v) > 0 -> {[y EXCEPT !.v[Len(y.v)] = "s:no such label"], [y EXCEPT !.v = SubSeq(y.v, 1, Len(y.v) - 1)], M!Raise}
    [] y.f = "V" /\ m # "predict" -> {[y EXCEPT !.v[Len(y.v)] = Off(y.v[Len(y.v)])], M!Raise}
    [] y.f = "D" /\ Len(y.rows) > 0 /\ y.n > 0 ->
         {[y EXCEPT !.rows[Len(y.rows)][y.n] = Off(y.rows[Len(y.rows)][y.n])], [y EXCEPT !.rows = SubSeq(y.rows, 1, Len(y.rows) - 1)], M!Raise}
    [] y.f = "S" /\ Len(y.rows) > 0 /\ y.n > 0 ->
         {[y EXCEPT !.rows[1] = [c |-> <<0>>, v |-> <<Off(M!SparseAt(y.rows[1], 0))>>]], [y EXCEPT !.n = y.n + 1], M!Raise}
    [] OTHER -> {}
Rejects == Model => \A m \in Asked, p \in 1..Len(inst.xs) :
             LET y == TLCEval(Answer(A, m, inst.xs[p]))
             IN y = Nothing \/ \A z \in Spoiled(m, y) : M!Verdict(A, m, inst.xs[p], z) # "ok"
(* C23: a batch is its rows                                                  *)
RowWise == Model => \A m \in Asked, p \in 1..Len(inst.xs) :
             LET x == inst.xs[p]
                 y == TLCEval(Answer(A, m, x))
             IN y = Nothing \/ M!IsRaise(y) \/ (A.k = "missind" /\ FALSE) \/
                \A i \in 1..M!Min2(4, M!InputRows(x)) :
                   LET z == TLCEval(Answer(A, m, M!RowX(x, i))) IN z = Nothing \/ M!RowOf(y, i) = z
(* C19: the sparse form of the data has the same meaning                      *)
SparseToo == Model => \A m \in Asked, p \in 1..Len(inst.xs) :
             LET x == inst.xs[p] IN
             (Data(x) /\ A.k \notin {"onehot", "ordinal"} /\ \A i \in 1..M!NRows(x) : \A j \in 1..x.n : x.rows[i][j] # "nan") =>
               LET y == TLCEval(Answer(A, m, x))
                   z == TLCEval(Answer(A, m, M!ToSparse(x)))
               IN \/ y = Nothing \/ z = Nothing \/ M!IsRaise(z)
                  \/ y = z
                  \/ (y.f \in {"D", "S"} /\ z.f \in {"D", "S"} /\ M!MatClose(y, z, "0", "0"))
(* C28: probabilities are well formed, admissible labels are most probable    *)
Proba == (Model /\ M!Offers(A, "predict_proba")) => \A p \in 1..Len(inst.xs) :
           LET x == inst.xs[p]
               y == TLCEval(Answer(A, "predict_proba", x))
               L == TLCEval(Answer(A, "predict", x))
           IN y = Nothing \/ M!IsRaise(y) \/
              (/\ \A i \in 1..M!NRows(y) : M!WellFormedRow(A, y.rows[i], Len(M!ClassesOf(A)))
               /\ L = Nothing \/ \A i \in 1..M!NRows(y) :
                    \E c \in 1..Len(M!ClassesOf(A)) : M!ClassesOf(A)[c] = L.v[i] /\ M!Near(y.rows[i][c], M!MaxNum(y.rows[i])))
(* C08: exactly one column per known category                                *)
OneHot == (Ready /\ A.k = "onehot") => \A p \in 1..Len(inst.xs) :
            LET x == inst.xs[p]  y == M!TransformM(A, x) IN
            M!IsRaise(y) \/ \A i \in 1..M!NRows(y), j \in 1..Len(A.cats) :
              LET lo == M!Offset(A, j)
                  on == {q \in 1..Len(A.cats[j]) : M!Cell(y, i, lo + q - 1) = "1"}
              IN on = {q \in 1..Len(A.cats[j]) : A.cats[j][q] = x.rows[i][j]}
(* C14, C15: flattening a composition changes nothing                         *)
RECURSIVE Flat(_)
Flat(a) == IF a.k # "pipe" THEN <<a>> ELSE M!Concat([i \in 1..Len(a.steps) |-> Flat(a.steps[i])])
Composition == (Ready /\ A.k = "pipe") => \A m \in Asked, p \in 1..Len(inst.xs) :
                 LET y == TLCEval(Answer(A, m, inst.xs[p])) IN
                 /\ y = Answer(PipeOf(Flat(A)), m, inst.xs[p])
                 /\ y = Answer(PipeOf(SelectSeq(Flat(A), LAMBDA s : s.k # "pass") \o (IF Flat(A)[Len(Flat(A))].k = "pass" THEN <<[k |-> "pass"]>> ELSE <<>>)), m, inst.xs[p])
Concatenation == (Ready /\ A.k = "union") => \A p \in 1..Len(inst.xs) :
                 LET y == TLCEval(Answer(A, "transform", inst.xs[p]))
                     ws == [i \in 1..Len(A.parts) |-> IF A.parts[i].art.k = "drop" THEN 0 ELSE M!TransformM(A.parts[i].art, inst.xs[p]).n]
                 IN y.n = M!FoldLeft(LAMBDA s, w : s + w, 0, ws)
(* C12: what a document adds to the buckets is bounded by its terms           *)
Hashing == (Ready /\ A.k = "hashvec") => \A p \in 1..Len(inst.xs) :
             LET y == M!HashMat(A, inst.xs[p]) IN
             \A i \in 1..M!NRows(y) : NLe(NSum([q \in 1..Len(y.rows[i].v) |-> NAbs(y.rows[i].v[q])]), NOfInt(Len(M!Terms(A.opt, inst.xs[p].docs[i]))))
(* C16: the answers form the specification admits are those it can generate   *)
FtSort(P) == SortSeq([i \in 1..Len(P) |-> i], LAMBDA i, j : NLt(P[j], P[i]) \/ (P[i] = P[j] /\ i < j))
FtAnswer(a, text, k, thr) ==
  LET P == TLCEval(M!FtProbs(a, text))
      o == SelectSeq(FtSort(P), LAMBDA i : ~NLt(P[i], thr))
      kk == IF k = -1 THEN Len(P) ELSE k
      cut == SubSeq(o, 1, M!Min2(kk, Len(o)))
  IN [labels |-> [i \in 1..Len(cut) |-> a.labels[cut[i]]], probs |-> [i \in 1..Len(cut) |-> P[cut[i]]]]
FtAccepts == (Ready /\ A.k = "ft" /\ A.sup) => \A p \in 1..Len(inst.xs) :
               LET x == inst.xs[p]
                   y == [f |-> "P", list |-> x.list, rows |-> TLCEval([i \in 1..Len(x.texts) |-> FtAnswer(A, x.texts[i], x.kk, x.thr)])]
               IN /\ M!FtVerdict(A, "predict", x, y) = "ok"
                  /\ \A i \in 1..Len(y.rows) : LET r == y.rows[i] IN Len(r.labels) > 1 /\ ~M!Near(r.probs[1], r.probs[2]) =>
                       M!FtVerdict(A, "predict", x, [y EXCEPT !.rows[i].labels = [r.labels EXCEPT ![1] = r.labels[2], ![2] = r.labels[1]]]) # "ok"
(* C18, C20: laws of the matrix functions                                     *)
X1 == inst.xs[1]
X2 == inst.xs[2]
Le(m, g) == M!LibExpect(m, g)
Matrices == (Ready /\ A.k = "lib") =>
  /\ Le("todense", <<Le("tosparse", <<X1>>)>>) = X1
  /\ Le("transpose", <<Le("transpose", <<X1>>)>>) = X1
  /\ Le("linear_kernel_pure", <<X1, X2>>) = Le("transpose", <<Le("linear_kernel_pure", <<X2, X1>>)>>)
  /\ Le("linear_kernel_pure", <<M!ToSparse(X1), X2>>) = Le("linear_kernel_pure", <<X1, X2>>)
  /\ LET S == Le("cosine_similarity_pure", <<X1, X2>>)
         D == Le("cosine_distances_pure", <<X1, X2, [f |-> "opt"]>>)
     IN \A i \in 1..M!NRows(X1), j \in 1..M!NRows(X2) :
          /\ NLe(NAbs(S.rows[i][j]), "1000001/1000000") /\ NLe("0", D.rows[i][j]) /\ NLe(D.rows[i][j], "2")
          /\ M!Near(NAdd(S.rows[i][j], D.rows[i][j]), "1")
(* which inputs have an answer, and whether sparse data has                   *)
Valid(p) == A.k \in {"lib", "ft"} \/ \A m \in Asked : ~M!MustRefuse(A, m, inst.xs[p])
Sparsely == Model /\ Len(inst.xs) > 0 /\ inst.xs[1].f = "D" /\ A.k \notin {"onehot", "ordinal"}
            /\ \A m \in Asked : ~M!MustRefuse(A, m, M!ToSparse(M!Dense(inst.xs[1].n, <<[j \in 1..inst.xs[1].n |-> "1"]>>)))
Show == Ready => PrintT(ToJson([tag |-> "INST", art |-> A, xs |-> inst.xs, valid |-> [p \in 1..Len(inst.xs) |-> Valid(p)], sparse |-> Sparsely]))
=============================================================================
