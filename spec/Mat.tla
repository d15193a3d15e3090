-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Data as the library sees it.                                            *)
(*                                                                         *)
(*   dense   [f |-> "D", n |-> columns, rows |-> <<row, ...>>]             *)
(*           row = sequence of cells (numbers, or opaque category cells)   *)
(*   sparse  [f |-> "S", n |-> columns, rows |-> <<[c, v], ...>>]          *)
(*           c = 0-based columns that are stored, v = their values         *)
(*   error   Raise: the call must fail                                     *)
(*                                                                         *)
(* Columns are 0-based everywhere, as in the artifacts.                    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, SequencesExt, TLC

Raise == [f |-> "raise"]
IsRaise(x) == x.f = "raise"
IsSparse(x) == x.f = "S"
Dense(n, rows) == [f |-> "D", n |-> n, rows |-> rows]
Sparse(n, rows) == [f |-> "S", n |-> n, rows |-> rows]
NRows(x) == Len(x.rows)

Map(Op(_), s) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
MaxNum(s) == FoldLeft(LAMBDA a, b : IF NLt(a, b) THEN b ELSE a, s[1], Tail(s))
(* first position of the largest element: the label rule of the library    *)
ArgMaxFirst(s) ==
  LET m == MaxNum(s) IN CHOOSE i \in 1..Len(s) :
        NEq(s[i], m) /\ \A j \in 1..(i-1) : ~NEq(s[j], m)

(* position in the stored-column list of column j, or 0                    *)
PosOf(c, j) == LET P == {p \in 1..Len(c) : c[p] = j} IN IF P = {} THEN 0 ELSE CHOOSE p \in P : TRUE
SparseAt(row, j) == LET p == PosOf(row.c, j) IN IF p = 0 THEN "0" ELSE row.v[p]
Cell(x, i, j) == IF IsSparse(x) THEN SparseAt(x.rows[i], j) ELSE x.rows[i][j + 1]

DenseRow(x, i) == IF IsSparse(x) THEN TLCEval([j \in 1..x.n |-> SparseAt(x.rows[i], j - 1)]) ELSE x.rows[i]
ToDense(x) == Dense(x.n, TLCEval([i \in 1..NRows(x) |-> DenseRow(x, i)]))
ToSparseRow(r) ==
  LET cols == SelectSeq([j \in 1..Len(r) |-> j - 1], LAMBDA j : ~NEq(r[j + 1], "0"))
  IN  [c |-> cols, v |-> [p \in 1..Len(cols) |-> r[cols[p] + 1]]]
ToSparse(x) == IF IsSparse(x) THEN x ELSE Sparse(x.n, TLCEval([i \in 1..NRows(x) |-> ToSparseRow(x.rows[i])]))

(* dot product of row i with a dense coefficient vector                    *)
DotRow(x, i, w) ==
  IF IsSparse(x)
  THEN LET r == x.rows[i] IN NDot(r.v, [p \in 1..Len(r.c) |-> w[r.c[p] + 1]])
  ELSE NDot(x.rows[i], w)

(* keep only the listed columns, in the listed order                       *)
SelectCols(x, cols) ==
  Dense(Len(cols), TLCEval([i \in 1..NRows(x) |-> [p \in 1..Len(cols) |-> Cell(x, i, cols[p])]]))
OnlyRow(x, i) == [x EXCEPT !.rows = <<x.rows[i]>>]
(* apply Op to every stored value of a row                                 *)
MapRow(x, i, Op(_, _)) ==
  IF IsSparse(x)
  THEN LET r == x.rows[i] IN [c |-> r.c, v |-> TLCEval([p \in 1..Len(r.c) |-> Op(r.c[p], r.v[p])])]
  ELSE TLCEval([j \in 1..Len(x.rows[i]) |-> Op(j - 1, x.rows[i][j])])
MapMat(x, Op(_, _)) == [x EXCEPT !.rows = TLCEval([i \in 1..NRows(x) |-> MapRow(x, i, Op)])]
RowVals(x, i) == IF IsSparse(x) THEN x.rows[i].v ELSE x.rows[i]

(* ---- comparison of two matrices as matrices (stored zero = absent) ---- *)
CellClose(u, v, rel, abs) == u = v \/ NClose(u, v, rel, abs)     \* a cell may be text
RowClose(x, y, i, rel, abs) ==
  IF ~IsSparse(x) /\ ~IsSparse(y)
  THEN /\ Len(x.rows[i]) = Len(y.rows[i])
       /\ \A j \in 1..Len(x.rows[i]) : CellClose(x.rows[i][j], y.rows[i][j], rel, abs)
  ELSE LET cx == IF IsSparse(x) THEN ToSet(x.rows[i].c) ELSE 0..(x.n - 1)
           cy == IF IsSparse(y) THEN ToSet(y.rows[i].c) ELSE 0..(y.n - 1)
       IN \A j \in cx \cup cy : CellClose(Cell(x, i, j), Cell(y, i, j), rel, abs)
MatClose(x, y, rel, abs) ==
  /\ NRows(x) = NRows(y) /\ x.n = y.n
  /\ \A i \in 1..NRows(x) : RowClose(x, y, i, rel, abs)
(* well-formed: every stored column exists, none is stored twice           *)
WellFormed(x) ==
  /\ x.f \in {"D", "S"}
  /\ x.f = "D" => \A i \in 1..NRows(x) : Len(x.rows[i]) = x.n
  /\ x.f = "S" => \A i \in 1..NRows(x) :
        /\ Len(x.rows[i].c) = Len(x.rows[i].v)
        /\ \A p \in 1..Len(x.rows[i].c) : x.rows[i].c[p] \in 0..(x.n - 1)
        /\ Cardinality(ToSet(x.rows[i].c)) = Len(x.rows[i].c)
=============================================================================
