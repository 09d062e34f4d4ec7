----------------------------- MODULE TraceAtom -----------------------------
(* Recorded histories of atoms, step by step against the machine.  What is seen is recorded by
   differences to what was seen before. *)
EXTENDS Atom, Conform

All(s) == <<s.h[1], s.h[2]>> \o s.sys
RECURSIVE Patch(_, _)
Patch(seen, chg) == IF chg = <<>> THEN seen
                    ELSE LET c == Head(chg) IN Patch([seen EXCEPT ![c[1]][c[2]] = c[3]], Tail(chg))
Blank == [a \in Names |-> "unseen"]
More(seen, n) == IF Len(seen) >= n THEN SubSeq(seen, 1, n) ELSE seen \o [i \in 1..(n - Len(seen)) |-> Blank]

RECURSIVE Walk(_, _, _, _, _)
Walk(r, i, s, seen, acc) ==
  IF i > Len(r.steps) THEN acc ELSE
  LET st == r.steps[i]
      op == st.op
      start == op.o = "start"
      ref == ~start /\ Refused(s, op)
      s2 == TLCEval(IF start THEN s ELSE Apply(s, op))
      want == All(s2)
      now == TLCEval(Patch(More(seen, Len(want)), st.chg))
      touched == {<<k, a>> \in (DOMAIN want) \X Names : k > Len(seen) \/ (k <= Len(All(s)) /\ want[k][a] # All(s)[k][a])}
      told == {<<st.chg[k][1], st.chg[k][2]>> : k \in DOMAIN st.chg}
      Free(x) == x[2] \in {"face_vertices", "face_perimeters"} /\ want[x[1]][x[2]] # <<>> /\ want[x[1]][x[2]][1] = Any
                 /\ Len(now[x[1]][x[2]]) = Len(want[x[1]][x[2]])
      wrong == {x \in touched \cup told : ~Free(x) /\ ToString(want[x[1]][x[2]]) # ToString(now[x[1]][x[2]])}
      f == IF ~start /\ ~Allowed(s, op) THEN {"NotAllowed"} ELSE
           Cl("Accepted", ref => st.err # "")
           \cup Cl("Refused_" \o op.o, ~ref => st.err = "")
           \cup Cl("SeenTwice", st.same)
           \cup {(IF x[1] <= 2 THEN "Atom_" ELSE "System_") \o op.o : x \in wrong}
  IN IF f # {} THEN acc \cup f ELSE Walk(r, i+1, s2, now, acc)
FailAtom(r) == Walk(r, 1, S0, <<>>, {})
=============================================================================
