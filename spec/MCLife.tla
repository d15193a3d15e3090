------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* PurePredict over small domains, for three purposes:                      *)
(*  - TLC checks, on every history up to a depth, that the machine has the  *)
(*    properties the listed guarantees speak of (Snapshot, OnlyTheCaller,   *)
(*    Function, InFlight below);                                            *)
(*  - TLC enumerates the histories up to a depth (Show, breadth first);    *)
(*  - TLC draws long random histories (Show, -simulate).                   *)
(* Histories are executed against the real library by harness/lifecycle.py. *)
(*                                                                         *)
(* A source is <<s, v>>: source s in its v-th state; the artifact is that   *)
(* pair.  Containers <<s, j>> hold contents for source s.  The answer to a  *)
(* question is the question itself, so answers agree exactly when all of    *)
(* model, method and content agree.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NS, NV, NJ, NX, NM,   \* sources, states of each, containers of each, contents, methods
          NO, NP,               \* objects, pickles at most
          Open,                 \* calls open at once
          Acts,                 \* names of the actions allowed
          Depth,                \* length of a history
          Asks                  \* a history is printed only when it has at least so many calls

VARIABLES src, obj, pkl, heap, calls, memo, hist, org
J(mode, a, m, x, y) == IF y = <<a, m, x>> THEN "ok" ELSE "wrong"
Yes(a) == TRUE
Yes2(a, m) == TRUE
Ref == <<"refused">>
Never(a, m, x, y, z) == FALSE
P == INSTANCE PurePredict WITH Judge <- J, Convertible <- Yes, Offered <- Yes2, StrictOffer <- Yes, ClassesIs <- Yes2,
       PlainType <- Yes, AllowedImport <- Yes, SameAnswer <- Never, Refused <- Ref
mvars == <<src, obj, pkl, heap, calls, memo>>
vars == <<src, obj, pkl, heap, calls, memo, hist, org>>

S == 1..NS
Cell == {<<"c", s, j>> : s \in S, j \in 1..NJ}
Name(p, n) == <<p, n>>
Free(p, n, D) == {i \in 1..n : Name(p, i) \notin D /\ \A j \in 1..(i - 1) : Name(p, j) \in D}
Rec(e) == hist' = Append(hist, e)
Nend == Cardinality({i \in 1..Len(hist) : hist[i].e \in {"end", "ask"}})
(* org: object or pickle -> the source it came from (for choosing contents) *)

Init == /\ src = [s \in S |-> <<s, 1>>] /\ obj = <<>> /\ pkl = <<>>
        /\ heap = [c \in Cell |-> <<c[2], c[3]>>] /\ calls = <<>> /\ memo = <<>>
        /\ hist = <<>> /\ org = <<>>

DoFit == \E s \in S, v \in 1..NV :
           /\ src[s] # <<s, v>> /\ P!FitDo(s, <<s, v>>) /\ UNCHANGED org
           /\ Rec([e |-> "fit", s |-> s, v |-> v])
(* first objects of every source, then further ones                          *)
DoConvert == \E s \in S, i \in Free("o", NO, DOMAIN org) :
           /\ P!Convert(s, Name("o", i), TRUE)
           /\ org' = (Name("o", i) :> s) @@ org
           /\ Rec([e |-> "convert", s |-> s, o |-> i])
DoDump == \E o \in DOMAIN obj, i \in Free("p", NP, DOMAIN org) :
           /\ P!Dump(o, Name("p", i)) /\ org' = (Name("p", i) :> org[o]) @@ org
           /\ Rec([e |-> "dump", o |-> o[2], p |-> i])
DoLoad == \E p \in DOMAIN pkl, i \in Free("o", NO, DOMAIN org) :
           /\ P!Load(p, Name("o", i)) /\ org' = (Name("o", i) :> org[p]) @@ org
           /\ Rec([e |-> "load", p |-> p[2], o |-> i])
DoWreck == \E o \in DOMAIN obj :
           /\ Cardinality(DOMAIN obj) > 1 /\ \A k \in DOMAIN calls : calls[k].obj # o
           /\ P!Wreck(o) /\ UNCHANGED org /\ Rec([e |-> "wreck", o |-> o[2]])
InUse == {calls[k].c : k \in DOMAIN calls}
DoPut == \E c \in Cell \ InUse, x \in 1..NX :
           /\ heap[c] # <<c[2], x>> /\ P!Put(c, <<c[2], x>>) /\ UNCHANGED org
           /\ Rec([e |-> "put", c |-> c, x |-> x])
(* the caller writes over one of the last two answers                        *)
DoScribble == \E c \in {c \in DOMAIN heap : c[1] = "r" /\ heap[c] # <<"scribbled">> /\ c[2] + 2 > Nend} :
           /\ P!Put(c, <<"scribbled">>) /\ UNCHANGED org
           /\ Rec([e |-> "scribble", r |-> c[2]])
DoBegin == \E o \in DOMAIN obj, m \in 1..NM, c \in Cell, i \in Free("k", Open, DOMAIN calls) :
           /\ c[2] = org[o] /\ P!Begin(Name("k", i), o, m, c) /\ UNCHANGED org
           /\ Rec([e |-> "begin", k |-> i, o |-> o[2], m |-> m, c |-> c])
DoEnd == \E k \in DOMAIN calls :
           /\ LET q == calls[k] IN P!End(k, Name("r", Nend + 1), <<obj[q.obj], q.m, q.x>>, "model")
           /\ UNCHANGED org /\ Rec([e |-> "end", k |-> k[2], r |-> Nend + 1])
(* a call on its own: Begin and End at once                                  *)
DoAsk == \E o \in DOMAIN obj, m \in 1..NM, c \in Cell :
           LET y == <<obj[o], m, heap[c]>>  key == y IN
           /\ c[2] = org[o]
           /\ heap' = (Name("r", Nend + 1) :> y) @@ heap
           /\ memo' = IF key \in DOMAIN memo THEN memo ELSE (key :> y) @@ memo
           /\ UNCHANGED <<src, obj, pkl, calls, org>>
           /\ Rec([e |-> "ask", o |-> o[2], m |-> m, c |-> c, r |-> Nend + 1])

Next == /\ Len(hist) < Depth
        /\ \/ "fit" \in Acts /\ DoFit
           \/ "convert" \in Acts /\ DoConvert
           \/ "dump" \in Acts /\ DoDump
           \/ "load" \in Acts /\ DoLoad
           \/ "wreck" \in Acts /\ DoWreck
           \/ "put" \in Acts /\ DoPut
           \/ "scribble" \in Acts /\ DoScribble
           \/ "begin" \in Acts /\ DoBegin
           \/ "end" \in Acts /\ DoEnd
           \/ "ask" \in Acts /\ DoAsk
Spec == Init /\ [][Next]_vars

(* ---- what the machine guarantees ---------------------------------------- *)
(* C26: an object and a pickle stay what they were                            *)
Snapshot == [][ /\ \A o \in DOMAIN obj \cap DOMAIN obj' : obj'[o] = obj[o]
                /\ \A p \in DOMAIN pkl : pkl'[p] = pkl[p] ]_mvars
(* C26: conversion and calls leave the sources alone                         *)
SourceAlone == [][ src' # src => /\ hist'[Len(hist')].e = "fit" /\ UNCHANGED <<obj, pkl, heap, memo>> ]_mvars
(* C21: contents are changed by the caller only, one container at a time     *)
OnlyTheCaller == [][ \A c \in DOMAIN heap : heap'[c] # heap[c] =>
                       LET e == hist'[Len(hist')] IN
                         \/ e.e = "put" /\ e.c = c
                         \/ e.e = "scribble" /\ c = <<"r", e.r>> ]_mvars
(* C21, C22: every answer is a function of model, method and content         *)
Function == \A k \in DOMAIN memo : memo[k] = k
(* C22: an open call keeps its question whatever happens meanwhile           *)
InFlight == [][ \A k \in DOMAIN calls \cap DOMAIN calls' : calls'[k] = calls[k] ]_mvars
(* C24: what comes out of a pickle is what went in                           *)
Persistent == \A o \in DOMAIN obj : obj[o][1] = org[o]
StatesAreOf == \A o \in DOMAIN obj : obj[o] \in {<<s, v>> : s \in S, v \in 1..NV}

Complete == Len(hist) = Depth /\ Nend >= Asks /\ hist[Depth].e \in {"ask", "end"} /\ DOMAIN calls = {}
Show == Complete => PrintT(ToJson([tag |-> "HIST", h |-> hist]))
View == mvars
=============================================================================
