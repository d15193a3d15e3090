-------------------------------- MODULE Text --------------------------------
(* Text analysis: documents are sequences of Unicode code points.            *)
EXTENDS Mat, Murmur
CONSTANT Chars   \* "97" -> [w, s, co, asc : 0/1 ; lo, nf, u8 : sequences]
                 \*  word character, whitespace, combining, ASCII; lower
                 \*  case, NFKD decomposition, UTF-8 bytes

Ch(c) == Chars[ToString(c)]
IsWord(c) == Ch(c).w = 1
IsSpace(c) == Ch(c).s = 1
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Lower(d) == Concat([i \in 1..Len(d) |-> Ch(d[i]).lo])
Nfkd(d) == Concat([i \in 1..Len(d) |-> Ch(d[i]).nf])
(* combining characters cannot be the result of decomposing to a word char  *)
StripUnicode(d) == IF \A i \in 1..Len(d) : Ch(d[i]).asc = 1 THEN d
                   ELSE SelectSeq(Nfkd(d), LAMBDA c : Ch(c).co = 0)
StripAscii(d) == SelectSeq(Nfkd(d), LAMBDA c : Ch(c).asc = 1)
Preprocess(o, d) ==
  LET l == IF o.lower THEN Lower(d) ELSE d
  IN  TLCEval(CASE o.accents = "unicode" -> StripUnicode(l)
                [] o.accents = "ascii"   -> StripAscii(l)
                [] OTHER                 -> l)

(* maximal runs of positions satisfying In, as sequences of code points      *)
Runs(d, In(_)) ==
  LET starts == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : In(d[i]) /\ (i = 1 \/ ~In(d[i-1])))
      EndOf(i) == CHOOSE e \in i..Len(d) : (\A j \in i..e : In(d[j])) /\ (e = Len(d) \/ ~In(d[e+1]))
  IN  TLCEval([k \in 1..Len(starts) |-> SubSeq(d, starts[k], EndOf(starts[k]))])
(* a pattern that matches the empty text too does so wherever no run begins  *)
RunsAndGaps(d, In(_)) ==
  LET n == Len(d)
      Gap(i) == i > n \/ ~In(d[i])
      at == SelectSeq([i \in 1..(n + 1) |-> i], LAMBDA i : Gap(i) \/ i = 1 \/ ~In(d[i-1]))
      EndOf(i) == CHOOSE e \in i..n : (\A j \in i..e : In(d[j])) /\ (e = n \/ ~In(d[e+1]))
  IN  TLCEval([k \in 1..Len(at) |-> IF Gap(at[k]) THEN <<>> ELSE SubSeq(d, at[k], EndOf(at[k]))])
Tokens(o, d) ==
  LET rs == CASE o.tok = "w" -> Runs(d, IsWord)
              [] o.tok = "we" -> RunsAndGaps(d, IsWord)
              [] o.tok = "az" -> RunsAndGaps(d, LAMBDA c : c \in 97..122)
              [] OTHER -> Runs(d, LAMBDA c : ~IsSpace(c))
      ts == SelectSeq(rs, LAMBDA t : Len(t) >= o.tokmin)
  IN  IF o.cap = 0 THEN ts ELSE [i \in 1..Len(ts) |-> SubSeq(ts[i], 1, o.cap)]   \* a group of the pattern

Join(ts) == FoldLeft(LAMBDA a, b : a \o <<32>> \o b, ts[1], Tail(ts))
Windows(s, n) == [i \in 1..(Len(s) - n + 1) |-> SubSeq(s, i, i + n - 1)]
Range2(lo, hi) == IF hi < lo THEN <<>> ELSE [i \in 1..(hi - lo + 1) |-> lo + i - 1]
Min2(a, b) == IF a < b THEN a ELSE b

WordNgrams(o, ts0) ==
  LET ts == SelectSeq(ts0, LAMBDA t : \A k \in 1..Len(o.stop) : o.stop[k] # t)
      G(n) == LET w == Windows(ts, n) IN [i \in 1..Len(w) |-> Join(w[i])]
      ns == Range2(o.lo, Min2(o.hi, Len(ts)))
  IN  Concat([k \in 1..Len(ns) |-> G(ns[k])])
(* every run of two or more whitespace characters becomes one blank          *)
Squeeze(d) ==
  LET Keep(i) == ~IsSpace(d[i])
                 \/ ( /\ (i = 1 \/ ~IsSpace(d[i-1])) )
      ks == SelectSeq([i \in 1..Len(d) |-> i], Keep)
      LongRun(i) == IsSpace(d[i]) /\ i < Len(d) /\ IsSpace(d[i+1])
  IN  TLCEval([k \in 1..Len(ks) |-> IF LongRun(ks[k]) THEN 32 ELSE d[ks[k]]])
CharNgrams(o, d0) ==
  LET d == Squeeze(d0)
      ns == Range2(o.lo, Min2(o.hi, Len(d)))
  IN  Concat([k \in 1..Len(ns) |-> Windows(d, ns[k])])
CharWbNgrams(o, d0) ==
  LET ws == Runs(d0, LAMBDA c : ~IsSpace(c))
      One(w) == LET p == <<32>> \o w \o <<32>>
                    full == Range2(o.lo, Min2(o.hi, Len(p) - 1))
                    tail == IF o.hi >= Len(p) THEN <<p>> ELSE <<>>
                IN Concat([k \in 1..Len(full) |-> Windows(p, full[k])]) \o tail
  IN  Concat([k \in 1..Len(ws) |-> One(ws[k])])
Terms(o, doc) ==
  LET d == Preprocess(o, doc)
  IN  TLCEval(CASE o.analyzer = "word"    -> WordNgrams(o, Tokens(o, d))
                [] o.analyzer = "char"    -> CharNgrams(o, d)
                [] o.analyzer = "char_wb" -> CharWbNgrams(o, d))

SetToSortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* counts of vocabulary terms, one sparse row per document                   *)
CountRow(a, doc, vocab) ==
  LET ts == SelectSeq(Terms(a.opt, doc), LAMBDA t : t \in DOMAIN vocab)
      ix == TLCEval([i \in 1..Len(ts) |-> vocab[ts[i]]])
      cols == SetToSortedSeq(ToSet(ix))
      Cnt(c) == Cardinality({i \in 1..Len(ix) : ix[i] = c})
  IN  [c |-> cols, v |-> TLCEval([p \in 1..Len(cols) |-> IF a.binary THEN "1" ELSE NOfInt(Cnt(cols[p]))])]
Vocab(a) == TLCEval([t \in ToSet(a.terms) |-> a.index[CHOOSE i \in 1..Len(a.terms) : a.terms[i] = t]])
CountMat(a, x) ==
  LET voc == Vocab(a)
  IN  Sparse(Len(a.terms), TLCEval([i \in 1..Len(x.docs) |-> CountRow(a, x.docs[i], voc)]))

(* feature hashing                                                           *)
Utf8(t) == Concat([i \in 1..Len(t) |-> Ch(t[i]).u8])
HashRow(a, doc) ==
  LET ts == Terms(a.opt, doc)
      hs == TLCEval([i \in 1..Len(ts) |-> Hash32(Utf8(ts[i]))])
      ix == TLCEval([i \in 1..Len(ts) |-> AbsMod(hs[i], a.n)])
      sg == [i \in 1..Len(ts) |-> IF a.sign /\ IsNegative(hs[i]) THEN -1 ELSE 1]
      cols == SetToSortedSeq(ToSet(ix))
      Sum(c) == FoldLeft(LAMBDA s, i : IF ix[i] = c THEN s + sg[i] ELSE s, 0, [i \in 1..Len(ts) |-> i])
  IN  [c |-> cols, v |-> TLCEval([p \in 1..Len(cols) |-> IF a.binary THEN "1" ELSE NOfInt(Sum(cols[p]))])]
HashMat(a, x) == Sparse(a.n, TLCEval([i \in 1..Len(x.docs) |-> HashRow(a, x.docs[i])]))
=============================================================================
