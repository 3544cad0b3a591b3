------------------------------- MODULE TraceBase -------------------------------
(***************************************************************************)
(* Common frame of the trace specifications.  The environment variable      *)
(* TRACES names an NDJSON file; every line is one behaviour recorded from   *)
(* the implementation: [id |-> ..., ev |-> <<events>>, ...].  One TLC run   *)
(* validates all of them: the initial state picks a trace, every step       *)
(* consumes one event, and a trace is accepted iff its last event has been  *)
(* consumed, which prints <<"ACC", id>>.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos

Tr == Traces[tid]
Ev == Tr.ev[pos]
More == pos <= Len(Tr.ev)

BaseInit == tid \in 1..Len(Traces) /\ pos = 1
Consume == More /\ pos' = pos + 1 /\ tid' = tid
IsEvent(name) == More /\ Ev.op = name

(* a named requirement: when it fails the name is printed for the report *)
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"REJ", Tr.id, pos, name>>) /\ FALSE

Accept == pos = Len(Tr.ev) + 1 /\ PrintT(<<"ACC", Tr.id>>) /\ pos' = pos + 1 /\ tid' = tid

Range1(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range1(s) : Count(s, x) = Count(t, x)
================================================================================
