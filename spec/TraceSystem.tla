---------------------------- MODULE TraceSystem ----------------------------
(* Recorded histories of a System, step by step against the machine. *)
EXTENDS System, Num, Conform

Same(u, v) == Len(u) = Len(v) /\ \A k \in DOMAIN u : u[k] = v[k] \/ Close(u[k], v[k], 3)
BaseOK(b, o) == /\ o.same /\ o.box = b.box /\ Len(o.atoms) = Len(b.atoms)
                /\ \A k \in DOMAIN b.atoms : o.atoms[k] = b.atoms[k]

(* what one step shows, given the state before it, the atoms after it and the fields before it *)
FailStep(s, b, h, st, first) ==
  LET op == st.op
      ok == Allowed(s, op)
      ref == ok /\ Refused(s, op)
      rcp == IF ok THEN Recipe(s, op) ELSE <<>>
      T == Touches(s, op)
      \* both give up in the same way
      both == ~ref /\ rcp # <<>> /\ st.err # "" /\ st.referr = st.err
  IN IF ~ok THEN {} ELSE
     Cl("AtomsAndBox", BaseOK(b, st.base))
     \cup Cl("Accepted", ref => st.err # "")
     \cup Cl("Refused", ~ref /\ ~both => st.err = "")
     \cup (IF first \/ both THEN {} ELSE {"Changed_" \o f : f \in {x \in Fields \ T : h[x] # st.h[x]}})
     \cup Cl("Remains", op.o = "reset" => \A k \in DOMAIN st.obs : st.obs[k] = 0)
     \cup (IF ref \/ st.err # "" \/ rcp = <<>> THEN {} ELSE
           Cl("Recipe", st.recipe = rcp)
           \cup Cl("History_" \o op.o, st.referr = "" /\ Same(st.obs, st.ref)))

RECURSIVE Walk(_, _, _, _, _)
Walk(r, i, s, b, acc) ==
  IF i > Len(r.steps) THEN acc ELSE
  LET st == r.steps[i]
      op == st.op
      b2 == TLCEval(IF st.err # "" /\ op.o \notin Structural THEN b ELSE ApplyBase(r, b, op))
      h == IF i = 1 THEN st.h ELSE r.steps[i-1].h
      f == TLCEval(FailStep(s, b2, h, st, i = 1))
      \* a search that gives up leaves no neighbors
      s2 == TLCEval(IF st.err # "" /\ op.o \in Searches \cup Auxiliary THEN Apply(s, Op("fail", 0, 0)) ELSE IF st.err # "" /\ op.o \in Calculations THEN s ELSE Apply(s, op))
  IN Walk(r, i+1, s2, b2, acc \cup f)
FailSystem(r) == Walk(r, 1, S0, [k |-> 0, box |-> <<>>, atoms |-> <<>>], {})
=============================================================================
