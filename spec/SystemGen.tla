----------------------------- MODULE SystemGen -----------------------------
(* Behaviours of the system machine: for checking the machine itself (all of them, up to a
   length), and as inputs for the implementation. *)
EXTENDS System, TLC, Json, IOUtils, SequencesExt
CONSTANTS Arrangements,   \* numbers of the arrangements
          Families,       \* which kinds of operations occur, in a sequence: repeated ones are picked more often
          Len0            \* length of a behaviour
VARIABLES s, hist, added,
          rnd        \* state of a generator of random numbers (Wichmann and Hill), for behaviours picked at random
vars == <<s, hist, added, rnd>>
Env(x, d) == IF x \in DOMAIN IOEnv THEN atoi(IOEnv[x]) ELSE d
\* how many behaviours are picked
Wanted == Env("GEN_N", 8)
Seed == Env("VERIF_SEED", 1)
Twist(x) == <<(x[1] * 171) % 30269, (x[2] * 172) % 30307>>
One(S, x) == LET q == SetToSeq(S) IN q[1 + ((x[1] + x[2]) % Len(q))]
Warm(n) == Twist(Twist(Twist(<<1 + ((n * 197 + Seed * 91) % 30000), 1 + ((n * 53 + Seed * 1009) % 30000)>>)))

Structs == {Op("assign", k, 0) : k \in Arrangements} \cup {Op("rebox", k, 0) : k \in 1..2} \cup {Op("add", k, 0) : k \in 1..2}
           \cup {Op("setpos", i, m) : i \in {0, 1, 4}, m \in 1..2} \cup {Op("settype", i, m) : i \in {0, 2}, m \in 1..2}
           \cup {Op("setcustom", 3, 7), Op("reassign", 0, 0)}
Search1 == {Op("cut", k, m) : k \in 1..2, m \in 0..1} \cup {Op("num", k, m) : k \in {6, 12}, m \in {0, 2}}
        \cup {Op("adp", k, 0) : k \in 1..2} \cup {Op("sann", 0, 0)} \cup {Op("vor", k, 0) : k \in 1..2}
Calc == {Op(o, l, 0) : o \in {"q", "qav", "qcond", "clear", "aq", "dis"}, l \in Ls} \cup {Op("solid", k, 0) : k \in 1..2} \cup {Op("clus", k, 0) : k \in 1..3}
        \cup {Op(o, 0, 0) : o \in {"ang", "chi", "vv"}} \cup {Op("ent", k, 0) : k \in 1..2} \cup {Op("sro", k, 0) : k \in 1..2} \cup {Op("pm", k, 0) : k \in 1..2}
Aux == {Op("cna", k, 0) : k \in 0..1} \cup {Op("dia", 0, 0)} \cup {Op("csm", k, 0) : k \in {4, 12}}
Dist == {Op(o, 0, 0) : o \in Distributions}
Query == {Op(o, 0, 0) : o \in Queries}
Bad == {Op("bad", k, 0) : k \in 1..40}
FailS == {Op("fail", k, 0) : k \in 1..3}
OpsOf(f) == CASE f = "struct" -> Structs [] f = "search" -> Search1 [] f = "calc" -> Calc [] f = "aux" -> Aux [] f = "dist" -> Dist
              [] f = "query" -> Query [] f = "bad" -> Bad [] f = "fail" -> FailS [] f = "reset" -> {Op("reset", 0, 0)}
Ops == UNION {OpsOf(Families[i]) : i \in DOMAIN Families}

Start(k) == s = S0 /\ hist = <<Op("assign", k, 0)>> /\ added = {}
All == <<"struct", "search", "calc", "aux", "query", "fail", "reset", "dist">>
\* changes of the atoms and the box
ForAtoms == <<"struct", "struct", "struct", "search", "search", "calc", "reset">>
\* results
ForResults == <<"struct", "search", "search", "calc", "calc", "calc", "calc", "calc", "aux", "dist">>
AllCalc == <<"struct", "search", "calc", "aux", "dist", "reset">>
AllBad == <<"bad", "fail", "search", "calc", "aux">>
AllQuery == <<"query", "search", "calc", "aux", "dist">>
AllAtoms == <<"struct", "search", "reset">>
ForRefusals == <<"bad", "bad", "bad", "bad", "fail", "search", "search", "calc", "calc", "struct">>
ForQueries == <<"query", "query", "query", "query", "search", "calc", "calc", "calc", "aux", "dist">>
Init == rnd = <<0, 0>> /\ \E k \in Arrangements : Start(k)
GenInit == \E n \in 1..Wanted : rnd = Warm(n) /\ Start(One(Arrangements, rnd))
Step(op) == /\ Allowed(s, op)
            /\ op.o = "add" => op.k \notin added
            /\ s' = Apply(s, op)
            /\ hist' = Append(hist, op)
            /\ added' = IF op.o = "assign" THEN {} ELSE IF op.o = "add" THEN added \cup {op.k} ELSE added
\* every operation in every state that the machine can reach
EmitStep == Len(hist') = Len0 => PrintT("HIST " \o ToJson(hist'))
Emit == Len(hist) = Len0 => PrintT("HIST " \o ToJson(hist))
\* the family is chosen first, so that large families do not crowd out small ones
Next == Len(hist) < Len0 /\ (\E op \in Ops : Step(op)) /\ UNCHANGED rnd
Possible(f) == {op \in OpsOf(f) : Allowed(s, op) /\ (op.o = "add" => op.k \notin added)}
Pick == /\ Len(hist) < Len0
        /\ rnd' = Twist(Twist(rnd))
        /\ LET F == SelectSeq(Families, LAMBDA x : Possible(x) # {})
               x == Twist(rnd)
               f == F[1 + ((x[1] + x[2]) % Len(F))]
           IN Step(One(Possible(f), rnd'))
Spec == Init /\ [][Next]_vars
GenSpec == GenInit /\ [][Pick]_vars

\* every operation after every other one, after a search
PairInit == rnd = <<0, 0>> /\ (\E k \in Arrangements : Start(k))
PairFirst == {Op("cut", 1, 0), Op("vor", 1, 0)}
PairNext == /\ Len(hist) < Len0 /\ UNCHANGED rnd
            /\ \E op \in Ops : /\ Len(hist) = 1 => op \in PairFirst
                               \* after Voronoi neighbors: only what follows from these
                               /\ (Len(hist) > 1 /\ hist[2].o = "vor") => op \in Calc
                               /\ Step(op)
PairSpec == PairInit /\ [][PairNext]_vars
ForPairs == <<"search", "calc", "aux", "dist">>

(* ---- the machine itself ---- *)
\* how it was reached does not matter, but for the length
View == <<s, Len(hist)>>
RECURSIVE Run(_, _)
Run(st, ops) == IF ops = <<>> THEN st ELSE Run(Apply(st, Head(ops)), Tail(ops))
Fresh(ops) == Run(S0, ops)
(* a recipe, followed on a fresh system, is permitted, and reproduces neighbors and results *)
RECURSIVE Permitted(_, _)
Permitted(st, ops) == ops = <<>> \/ (Allowed(st, Head(ops)) /\ ~Refused(st, Head(ops)) /\ Permitted(Apply(st, Head(ops)), Tail(ops)))
RecipesOK ==
  /\ Known(s) => Permitted(S0, s.nb) /\ Fresh(s.nb).nb = s.nb
  /\ \A l \in Ls : s.q[l] # <<>> => /\ Permitted(S0, s.q[l])
                                    /\ Fresh(s.q[l]).nb = s.nb /\ Fresh(s.q[l]).q[l] = s.q[l] /\ Fresh(s.q[l]).qc[l] = s.qc[l]
  /\ s.sol # <<>> => Permitted(S0, s.sol) /\ Fresh(s.sol).sol = s.sol
  /\ \A op \in Ops : (Allowed(s, op) /\ ~Refused(s, op) /\ Recipe(s, op) # <<>>) =>
        /\ Permitted(S0, Recipe(s, op))
        /\ LET p == Recipe(s, op) IN p[Len(p)] = op /\ Recipe(Fresh(SubSeq(p, 1, Len(p)-1)), op) = p
(* queries and refused requests change nothing, by the machine *)
Inert == \A op \in Ops : (op.o \in Queries \cup Distributions \cup Invalid \/ (Refused(s, op) /\ op.o # "fail")) => Apply(s, op) = s /\ (Touches(s, op) = {})
(* an operation whose effect is remembered touches what is remembered *)
TouchOK == \A op \in Ops : Allowed(s, op) =>
   LET t == Apply(s, op) IN
     /\ t.nb # s.nb => "nbr" \in Touches(s, op)
     /\ (t.cond # s.cond) => "cond" \in Touches(s, op)
     /\ (\E l \in Ls : t.q[l] # s.q[l]) => Touches(s, op) \cap {"q", "nbr"} # {}
     /\ t.sol # s.sol => Touches(s, op) \cap {"solid", "nbr"} # {}
     /\ Touches(s, op) \subseteq Fields
(* nothing is claimed of results whose neighbors are not known *)
Modest == ~Known(s) => (s.sol = <<>> /\ \A l \in Ls : s.q[l] = <<>>)
=============================================================================
