------------------------------ MODULE AtomGen ------------------------------
(* Behaviours of atoms: checked for what the machine promises, and inputs for the implementation. *)
EXTENDS Atom, TLC, Json, IOUtils, SequencesExt
CONSTANT Len0
VARIABLES s, hist, rnd
vars == <<s, hist, rnd>>
Env(x, d) == IF x \in DOMAIN IOEnv THEN atoi(IOEnv[x]) ELSE d
Wanted == Env("GEN_N", 8)
Seed == Env("VERIF_SEED", 1)
Twist(x) == <<(x[1] * 171) % 30269, (x[2] * 172) % 30307>>
One(S, x) == LET q == SetToSeq(S) IN q[1 + ((x[1] + x[2]) % Len(q))]
Warm(n) == Twist(Twist(Twist(<<1 + ((n * 197 + Seed * 91) % 30000), 1 + ((n * 53 + Seed * 1009) % 30000)>>)))

H == 1..2
Sets == {Op("set", h, a, m, <<>>) : h \in H, a \in Names \ {"loc"}, m \in 1..2}
        \cup {Op("set", h, "loc", m, <<>>) : h \in H, m \in {1, 2, 100000}}
Nbs == {Op("set", h, a, m, <<>>) : h \in H, a \in {"neighbors", "neighbor_weights", "face_vertices", "face_perimeters"}, m \in 1..3}
Qs == {Op("setq", h, a, l, 11*l + h) : h \in H, a \in {"q", "aq"}, l \in 2..12}
      \cup {Op("setqs", h, a, 0, v) : h \in H, a \in {"q", "aq"}, v \in {<<<<6, 5>>, <<4, 3>>, <<12, 9>>>>, <<<<2, 8>>>>, <<<<11, 1>>, <<2, 4>>>>}}
News == {Op("new", h, "", m, <<64 * m, -m, 7>>) : h \in H, m \in 1..2}
Ro == {Op("ro", h, a, 0, <<>>) : h \in H, a \in Results}
Bads == {Op("bad", h, "", m, <<>>) : h \in H, m \in 1..30}
Assigns == {Op("assign", 0, "", m, <<>>) : m \in 1..2}
Moves == {Op("fetch", h, a, m, <<>>) : h \in H, a \in {"get", "list", "iter"}, m \in 1..2} \cup {Op("put", h, "", 0, <<>>) : h \in H}
Peeks == {Op("peek", 0, a, m, <<>>) : a \in {"get", "list", "iter"}, m \in 1..2} \cup {Op("add", 0, "", 0, <<>>)}
Families == <<SetToSeq(Sets), SetToSeq(Sets), SetToSeq(Sets), SetToSeq(Nbs), SetToSeq(Nbs), SetToSeq(Qs), SetToSeq(Qs), SetToSeq(News),
              SetToSeq(Ro), SetToSeq(Bads), SetToSeq(Assigns), SetToSeq(Moves), SetToSeq(Moves), SetToSeq(Moves), SetToSeq(Peeks)>>
Ops == UNION {Sets, Nbs, Qs, News, Ro, Bads, Assigns, Moves, Peeks}
\* with the value that is assigned
Full(st, op) == IF op.o = "set" THEN [op EXCEPT !.v = Val(op.a, op.m, Len(st.h[op.h].neighbors))] ELSE op

Step(x) == LET op == Full(s, x) IN Allowed(s, op) /\ s' = Apply(s, op) /\ hist' = Append(hist, op)
Init == s = S0 /\ hist = <<>> /\ rnd = <<0, 0>>
GenInit == \E n \in 1..Wanted : s = S0 /\ hist = <<>> /\ rnd = Warm(n)
\* the first that is possible from a place picked at random
RECURSIVE From(_, _, _)
From(q, i, n) == LET x == q[1 + (i % Len(q))] IN IF n = 0 \/ Allowed(s, Full(s, x)) THEN x ELSE From(q, i + 1, n - 1)
Pick == /\ Len(hist) < Len0
        /\ rnd' = Twist(Twist(rnd))
        /\ LET x == Twist(rnd)
               q == Families[1 + ((x[1] + x[2]) % Len(Families))]
               y == From(q, rnd'[1] + rnd'[2], Len(q))
           IN Step(IF Allowed(s, Full(s, y)) THEN y ELSE Op("assign", 0, "", 1 + (x[1] % 2), <<>>))
GenSpec == GenInit /\ [][Pick]_vars
Emit == Len(hist) = Len0 => PrintT("HIST " \o ToJson(hist))

\* every operation on an atom with neighbors, that is then stored, or overwritten
Prefix == <<Op("set", 1, "neighbors", 2, <<>>), Op("assign", 0, "", 1, <<>>)>>
Next == /\ Len(hist) < Len0 /\ UNCHANGED rnd
        /\ IF Len(hist) < 2 THEN \E m \in 1..2 : Step(IF Len(hist) = 0 THEN Prefix[1] ELSE [Prefix[2] EXCEPT !.m = m])
           ELSE IF Len(hist) = 2 THEN \E op \in Ops : Step(op)
           ELSE \E op \in Moves \cup Assigns : Step(op) /\ (op.o = "fetch" => op.m = 1) /\ op.h # 2
Spec == Init /\ [][Next]_vars

(* ---- the machine itself ---- *)
All(st) == <<st.h[1], st.h[2]>> \o st.sys
(* an assignment changes one atom in one attribute, or what is listed per neighbor *)
Local == \A x \in Ops : LET op == Full(s, x) IN Allowed(s, op) =>
   LET t == Apply(s, op) IN
     /\ op.o \in {"set", "setq", "setqs", "new", "fetch", "ro", "bad", "peek", "add"} => t.sys = s.sys
     /\ op.o \in {"put", "assign", "ro", "bad", "peek", "add"} => t.h = s.h
     /\ op.o \in {"set", "setq", "setqs", "new", "fetch"} => \A k \in H : k # op.h => t.h[k] = s.h[k]
     /\ op.o = "set" => /\ t.h[op.h][op.a] = op.v
                        /\ \A a \in Names : (a # op.a /\ ~(op.a = "neighbors" /\ Kind[a] = "pernb")) => t.h[op.h][a] = s.h[op.h][a]
     /\ op.o = "setq" => \A a \in Names \ {Qattr(op.a)} : t.h[op.h][a] = s.h[op.h][a]
(* lists per neighbor are as long as the neighbors, and those of fixed length stay so *)
Sizes == \A i \in DOMAIN All(s) : LET x == All(s)[i] IN
   /\ \A k \in DOMAIN PerNb : Len(x[PerNb[k]]) = Len(x.neighbors)
   /\ \A k \in DOMAIN Fixed : Len(x[Fixed[k]]) = Size[Fixed[k]]
(* an atom that is taken and put back changes nothing; one that is put is what is taken next *)
Fetch(h, m) == Op("fetch", h, "get", m, <<>>)
PutOp(h) == Op("put", h, "", 0, <<>>)
RoundTrip == s.sys = <<>> \/ \A h \in H : /\ \A m \in 1..2 : Apply(Apply(s, Fetch(h, m)), PutOp(h)).sys = s.sys
                                         /\ ~Refused(s, PutOp(h)) => LET t == Apply(Apply(s, PutOp(h)), Fetch(3 - h, s.h[h].loc + 1)) IN t.h[3 - h] = s.h[h]
\* atoms in the system know their places
Places == \A i \in DOMAIN s.sys : s.sys[i].loc = i - 1
=============================================================================
