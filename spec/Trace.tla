-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Is every recorded execution a behaviour of PurePredict?  The scenario    *)
(* file holds artifacts, interned contents, character data and traces; each *)
(* trace is one initial state.  Every event gets a verdict; a broken clause *)
(* is collected and the rest of the trace is still checked.                 *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences, SequencesExt

File == IOEnv.SCENARIO
Scn == JsonDeserialize(File)
Arts == Scn.arts
Vals == Scn.vals
Traces == Scn.traces
M == INSTANCE Model WITH Chars <- Scn.chars

RaiseIx == Scn.raise
(* What a call's answer is judged against depends on the property a trace is  *)
(* recorded for:                                                            *)
(*   model   the meaning of the artifact (Model!Verdict)                     *)
(*   refuse  only that invalid questions are refused                         *)
(*   serve   only that valid questions are answered and no others            *)
(*   memo    nothing: only that equal questions get equal answers            *)
JudgeIx(mode, a, m, x, y) ==
  CASE mode = "model" -> M!Verdict(Arts[a], m, Vals[x], Vals[y])
    [] mode = "refuse" -> IF Vals[y].f # "raise" /\ M!MustRefuse(Arts[a], m, Vals[x]) THEN "answered-instead-of-refusing" ELSE "ok"
    [] mode = "serve" -> M!ServeVerdict(Arts[a], m, Vals[x], Vals[y])
    [] OTHER -> "ok"
SameIx(a, m, x, y, z) == /\ Vals[y].f # "raise" /\ Vals[y].f = Vals[z].f
                         /\ M!Alike(Arts[a], m, Vals[x], Vals[y], Vals[z]) = "ok"
ConvertibleIx(a) == M!Supported(Arts[a])
OfferedIx(a, m) == M!Offers(Arts[a], m)
StrictIx(a) == Arts[a].k = "pipe"
ClassesIx(a, v) == Vals[v].f = "V" /\ Vals[v].v = M!ClassesOf(Arts[a])
PlainName(t) == t \in ToSet(Scn.plain)
ImportName(t) == t \in ToSet(Scn.imports)

VARIABLES src, obj, pkl, heap, calls, memo, t, l, bad
P == INSTANCE PurePredict WITH Judge <- JudgeIx, Convertible <- ConvertibleIx, Offered <- OfferedIx,
       StrictOffer <- StrictIx, ClassesIs <- ClassesIx, PlainType <- PlainName, AllowedImport <- ImportName,
       SameAnswer <- SameIx, Refused <- RaiseIx
allvars == <<src, obj, pkl, heap, calls, memo, t, l, bad>>

Evs == Traces[t].ev
Ev == Evs[l]
(* ---- relations between answers already given (containers of answers) ---- *)
Given(r) == r \in DOMAIN heap
AllGiven(rs) == \A i \in 1..Len(rs) : Given(rs[i])
NoneGiven(rs) == \A i \in 1..Len(rs) : ~Given(rs[i])
Val(r) == Vals[heap[r]]
RelClause(e) ==
  CASE e.r = "alike" ->       \* two forms of the same question
         IF ~AllGiven(e.rs) THEN (IF NoneGiven(e.rs) THEN "ok" ELSE "one-form-refused")
         ELSE M!Alike(Arts[obj[e.o]], e.m, Vals[heap[e.c]], Val(e.rs[1]), Val(e.rs[2]))
    [] e.r = "batch" ->       \* rs[1]: answer to the batch, rs[2..]: to its rows alone
         IF ~AllGiven(e.rs) THEN (IF NoneGiven(e.rs) THEN "ok" ELSE "batch-and-row-differ-in-refusal")
         ELSE M!BatchOf(Arts[obj[e.o]], e.m, Vals[heap[e.c]], Val(e.rs[1]), [i \in 1..(Len(e.rs) - 1) |-> Val(e.rs[i + 1])], e.ix)
    [] e.r = "proba" ->       \* rs: probabilities, labels[, log-probabilities] of one input
         IF ~AllGiven(e.rs) THEN "proba-refused"
         ELSE M!ProbaAgree(Arts[obj[e.o]], Vals[heap[e.c]], [i \in 1..Len(e.rs) |-> Val(e.rs[i])])
    [] OTHER -> "unknown-relation"
Clause(e) ==
  CASE e.e = "fit" -> "ok"
    [] e.e = "convert" -> P!ConvertClause(e.s, e.ok)
    [] e.e = "wreck" -> P!WreckClause(e.o)
    [] e.e = "dump" -> P!DumpClause(e.o, e.ok)
    [] e.e = "load" -> P!LoadClause(e.p, e.ok)
    [] e.e = "put" -> "ok"
    [] e.e = "look" -> P!LookClause(e.c, e.v)
    [] e.e = "begin" -> P!BeginClause(e.k, e.o, e.c)
    [] e.e = "end" -> P!EndClause(e.k, e.y, Traces[t].mode)
    [] e.e = "has" -> P!HasClause(e.o, e.m, e.b)
    [] e.e = "classes" -> P!ClassesClause(e.o, e.v)
    [] e.e = "types" -> P!TypesClause(e.o, e.t)
    [] e.e = "imports" -> P!ImportsClause(e.t)
    [] e.e = "rel" -> RelClause(e)
    [] OTHER -> "unknown-event"
Same == UNCHANGED <<src, obj, pkl, heap, calls, memo>>
Do(e) ==
  CASE e.e = "fit" -> P!FitDo(e.s, e.a)
    [] e.e = "convert" -> P!ConvertDo(e.s, e.o, e.ok)
    [] e.e = "wreck" -> P!WreckDo(e.o)
    [] e.e = "dump" -> P!DumpDo(e.o, e.p, e.ok)
    [] e.e = "load" -> P!LoadDo(e.p, e.o, e.ok)
    [] e.e = "put" -> P!PutDo(e.c, e.v)
    [] e.e = "begin" -> P!BeginDo(e.k, e.o, e.m, e.c)
    [] e.e = "end" -> P!EndDo(e.k, e.r, e.y)
    [] OTHER -> Same

TraceInit == P!Init /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
(* a broken convert leaves no object: later events on it cannot be judged   *)
TraceNext ==
  /\ l <= Len(Evs)
  /\ LET v == TLCEval(Clause(Ev)) IN
       /\ bad' = IF v = "ok" THEN bad ELSE Append(bad, <<l, v>>)
       /\ IF v = "trace-error" THEN Same ELSE Do(Ev)
  /\ l' = l + 1
  /\ t' = t
Done == l = Len(Evs) + 1
(* printed once per trace, when its last event has been consumed            *)
Report == Done => PrintT(ToJson([tag |-> "TRACE", t |-> t, n |-> l - 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_allvars
=============================================================================
