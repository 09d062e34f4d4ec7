------------------------------ MODULE Conform ------------------------------
(* Checks recorded behaviour of the implementation against the specification.

   A case is what one run of the real code showed to its user.  Failing(r) is the set of
   names of clauses of the specification that the case breaks: an empty set accepts it.
   Verdicts are total: every case gets one, and all cases are looked at, whatever the
   verdicts of others.  Chunks are walked by different workers. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANT Failing(_)

Cases == ndJsonDeserialize(IOEnv.CASES)
NCH == 24

VARIABLES chunk, pos, failed
cvars == <<chunk, pos, failed>>

CInit == chunk \in 0..(NCH-1) /\ pos = 0 /\ failed = {}

CNext == LET i == chunk + pos*NCH + 1
         IN /\ i <= Len(Cases)
            /\ pos' = pos + 1
            /\ chunk' = chunk
            /\ failed' = (IF Cases[i].err # "" THEN {"Raised"} ELSE Failing(Cases[i]))
            /\ failed' = {} \/ PrintT("VERDICT " \o ToJson([id |-> Cases[i].id, clauses |-> failed']))

CSpec == CInit /\ [][CNext]_cvars

(* every case was looked at *)
AllJudged == TLCGet("stats").distinct = NCH + Len(Cases)

(* a clause that fails contributes its name *)
Cl(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
