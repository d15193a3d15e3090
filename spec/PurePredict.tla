----------------------------- MODULE PurePredict -----------------------------
(***************************************************************************)
(* The life of a model.                                                     *)
(*                                                                         *)
(* A caller owns SOURCES (fitted estimators) and CONTAINERS (inputs, and    *)
(* the answers handed to it).  The library CONVERTS a source into an        *)
(* OBJECT, which can be DUMPED to a PICKLE, LOADED again (also elsewhere),  *)
(* and called; a call is open from Begin to End, and any number of calls    *)
(* may be open at once.                                                     *)
(*                                                                         *)
(* Objects are immutable: an object is nothing but the artifact its source  *)
(* held at conversion.  A call sees its argument as it was at Begin.  Only  *)
(* the caller changes containers.  Everything a user relies on about        *)
(* purity, snapshots, persistence and concurrency is that the code refines  *)
(* this machine; everything about numbers is in Judge.                      *)
(*                                                                         *)
(* Every action X is split into XClause (the guard: "ok", or the name of    *)
(* the broken clause) and XDo (the effect), so that Trace can go on after a *)
(* rejected event and report which clause was broken.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Judge(_, _, _, _, _), \* what is asked of answers, artifact, method, input, answer
                        \*   -> "ok" or the name of a clause
  Convertible(_),       \* artifact -> BOOLEAN: conversion must succeed
  Offered(_, _),        \* artifact, method -> BOOLEAN
  StrictOffer(_),       \* artifact -> BOOLEAN: methods not offered must be absent
  ClassesIs(_, _),      \* artifact, value -> BOOLEAN
  PlainType(_),         \* type name -> BOOLEAN
  AllowedImport(_),     \* module name -> BOOLEAN
  SameAnswer(_, _, _, _, _), \* artifact, method, input, two answers -> BOOLEAN: equal up to rounding
  Refused               \* the value recorded for a call that raised

VARIABLES
  src,     \* source    -> artifact
  obj,     \* object    -> artifact
  pkl,     \* pickle    -> artifact
  heap,    \* container -> content
  calls,   \* open call -> [obj, m, c, x]
  memo     \* <<artifact, method, input>> -> answer already given
vars == <<src, obj, pkl, heap, calls, memo>>

Init == /\ src = <<>> /\ obj = <<>> /\ pkl = <<>>
        /\ heap = <<>> /\ calls = <<>> /\ memo = <<>>
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ---- sources: fit or refit, by the caller ------------------------------ *)
FitDo(s, a) == /\ src' = (s :> a) @@ src
               /\ UNCHANGED <<obj, pkl, heap, calls, memo>>

(* ---- conversion -------------------------------------------------------- *)
ConvertClause(s, ok) ==
  IF s \notin DOMAIN src THEN "trace-error"
  ELSE IF ~ok /\ Convertible(src[s]) THEN "refused-supported-model"
  ELSE "ok"             \* accepting what is not convertible: see Judge
ConvertDo(s, o, ok) ==
  /\ obj' = IF ok THEN (o :> src[s]) @@ obj ELSE obj
  /\ UNCHANGED <<src, pkl, heap, calls, memo>>

(* the caller destroys an object: whatever it was made of is written over    *)
WreckClause(o) == IF o \in DOMAIN obj THEN "ok" ELSE "trace-error"
WreckDo(o) == /\ obj' = Drop(obj, o)
              /\ UNCHANGED <<src, pkl, heap, calls, memo>>

(* ---- persistence ------------------------------------------------------- *)
DumpClause(o, ok) == IF o \notin DOMAIN obj THEN "trace-error" ELSE IF ok THEN "ok" ELSE "cannot-be-pickled"
DumpDo(o, p, ok) == /\ pkl' = IF ok THEN (p :> obj[o]) @@ pkl ELSE pkl
                    /\ UNCHANGED <<src, obj, heap, calls, memo>>
LoadClause(p, ok) == IF p \notin DOMAIN pkl THEN "trace-error" ELSE IF ok THEN "ok" ELSE "cannot-be-unpickled"
LoadDo(p, o, ok) == /\ obj' = IF ok THEN (o :> pkl[p]) @@ obj ELSE obj
                    /\ UNCHANGED <<src, pkl, heap, calls, memo>>

(* ---- containers: created and changed by the caller only ---------------- *)
PutDo(c, v) == /\ heap' = (c :> v) @@ heap
               /\ UNCHANGED <<src, obj, pkl, calls, memo>>
LookClause(c, v) == IF c \notin DOMAIN heap THEN "trace-error"
                    ELSE IF heap[c] = v THEN "ok" ELSE "caller-data-changed"

(* ---- calls ------------------------------------------------------------- *)
BeginClause(k, o, c) == IF o \notin DOMAIN obj \/ c \notin DOMAIN heap \/ k \in DOMAIN calls THEN "trace-error" ELSE "ok"
BeginDo(k, o, m, c) ==
  /\ calls' = (k :> [obj |-> o, m |-> m, c |-> c, x |-> heap[c]]) @@ calls
  /\ UNCHANGED <<src, obj, pkl, heap, memo>>
Key(k) == LET q == calls[k] IN <<obj[q.obj], q.m, q.x>>
(* the first answer to a question is judged; a later one must be the same   *)
EndClause(k, y, mode) ==
  IF k \notin DOMAIN calls THEN "trace-error"
  ELSE IF Key(k) \in DOMAIN memo
       THEN (IF memo[Key(k)] = y THEN "ok"
             ELSE IF LET q == calls[k] IN SameAnswer(obj[q.obj], q.m, q.x, memo[Key(k)], y) THEN "ok"
             ELSE LET q == calls[k]  v == Judge(mode, obj[q.obj], q.m, q.x, y)
                  IN IF v = "ok" THEN "answer-not-a-function-of-model-and-arguments" ELSE v)
       ELSE LET q == calls[k] IN Judge(mode, obj[q.obj], q.m, q.x, y)
EndDo(k, r, y) ==
  /\ calls' = Drop(calls, k)
  /\ heap' = IF y = Refused THEN heap ELSE (r :> y) @@ heap
  /\ memo' = IF Key(k) \in DOMAIN memo THEN memo ELSE (Key(k) :> y) @@ memo
  /\ UNCHANGED <<src, obj, pkl>>

(* ---- what an object shows without being called ------------------------- *)
HasClause(o, m, b) ==
  IF o \notin DOMAIN obj THEN "trace-error"
  ELSE IF Offered(obj[o], m) /\ ~b THEN "method-missing"
  ELSE IF ~Offered(obj[o], m) /\ b /\ StrictOffer(obj[o]) THEN "method-offered-but-unsupported"
  ELSE "ok"
ClassesClause(o, v) == IF ClassesIs(obj[o], v) THEN "ok" ELSE "classes"
TypesClause(o, ts) == IF \A i \in 1..Len(ts) : PlainType(ts[i]) THEN "ok" ELSE "state-not-plain"
ImportsClause(ms) == IF \A i \in 1..Len(ms) : AllowedImport(ms[i]) THEN "ok" ELSE "imports-third-party"

(* ---- the machine ------------------------------------------------------- *)
Fit(s, a)         == FitDo(s, a)
Convert(s, o, ok) == ConvertClause(s, ok) = "ok" /\ ConvertDo(s, o, ok)
Wreck(o)          == WreckClause(o) = "ok" /\ WreckDo(o)
Dump(o, p)        == DumpClause(o, TRUE) = "ok" /\ DumpDo(o, p, TRUE)
Load(p, o)        == LoadClause(p, TRUE) = "ok" /\ LoadDo(p, o, TRUE)
Put(c, v)         == PutDo(c, v)
Begin(k, o, m, c) == BeginClause(k, o, c) = "ok" /\ BeginDo(k, o, m, c)
End(k, r, y, mode) == EndClause(k, y, mode) = "ok" /\ EndDo(k, r, y)
=============================================================================
