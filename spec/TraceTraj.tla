----------------------------- MODULE TraceTraj -----------------------------
(* Recorded histories of trajectories, step by step against the machine. *)
EXTENDS Trajectory, Files, Conform

U == 64
(* what reading the frame as a system gives, in 4096ths *)
AsDump(f) == [head |-> f.head, bounds |-> f.box,
              rows |-> [i \in DOMAIN f.rows |-> [c \in DOMAIN f.head |-> [s |-> "", n |-> f.rows[i][c]]]]]
SysOK(o, f, keys) ==
  LET g == AsDump(f) A == AtomsOf(g, <<>>, U) IN
  /\ o.natoms = f.natoms /\ Len(o.atoms) = f.natoms
  /\ o.box = [k \in 1..3 |-> Scale(64, BoxOf(g)[k])]
  /\ \A i \in DOMAIN A : /\ o.atoms[i].p = A[i].p /\ 64 * o.atoms[i].id = A[i].id /\ 64 * o.atoms[i].t = A[i].t
                         /\ \A k \in DOMAIN keys : o.atoms[i].cn[k] = 64 * f.rows[i][ColNo(f, keys[k])]
AseOK(o, f, species) ==
  LET g == AsDump(f) A == AtomsOf(g, <<>>, U) IN
  /\ Len(o.atoms) = f.natoms /\ o.pbc = <<1, 1, 1>>
  /\ o.box = [k \in 1..3 |-> Scale(64, BoxOf(g)[k])]
  /\ \A i \in DOMAIN A : o.atoms[i].p = A[i].p /\ o.atoms[i].sp = species[A[i].t \div 64]

FileFrame(r, fr) == r.F[fr[1]][fr[2]+1]
(* loaded data says nothing of step, words and number of atoms *)
Bare(f) == [f EXCEPT !.step = 0, !.words = <<>>, !.natoms = 0]
Seen(r, s, op, st) ==
  LET q == IF op.o \in {"system", "ase", "dict", "file", "append"} THEN s.sl[op.k] ELSE <<>> IN
  CASE op.o = "block" -> Cl("Block", Len(st.obs) = 1 /\ st.obs[1] = r.F[op.k][Norm(op.a, r.nf[op.k]) + 1])
    [] op.o = "repr" -> Cl("Repr", st.obs = <<r.nf[op.k], r.F[op.k][1].natoms>>)
    [] op.o = "iter" -> IF op.c = 1 /\ op.a \in 1..2
                        THEN LET n == r.nf[op.k] w == IF op.b = None THEN n ELSE Min2(op.b, n)
                             IN Cl("IterSystems", Len(st.obs) = w /\ \A i \in 1..w : SysOK(st.obs[i], r.F[op.k][IF op.a = 1 THEN i ELSE n + 1 - i], <<>>))
                        ELSE Cl("Iter", IterOK(r.nf[op.k], op.a, op.b, st.obs))
    [] op.o = "system" -> Cl("Systems", Len(st.obs) = Len(q) /\ \A i \in DOMAIN q : SysOK(st.obs[i], FileFrame(r, q[i]), IF op.a = 1 THEN r.keys ELSE <<>>))
    [] op.o = "ase" -> Cl("Objects", Len(st.obs) = Len(q) /\ \A i \in DOMAIN q : AseOK(st.obs[i], FileFrame(r, q[i]), r.species))
    [] op.o = "dict" -> Cl("Data", Len(st.obs) = Len(q) /\ \A i \in DOMAIN q : SameFrame(st.obs[i], Bare(Value(r.F, s, q[i], U))))
    [] op.o \in {"file", "append"} ->
         LET p == IF op.o = "append" THEN <<<<1, 0>>>> \o q ELSE q
         IN Cl("Written", Len(st.obs) = Len(p) /\ \A i \in DOMAIN p : LET v == Value(r.F, s, p[i], U) g == st.obs[i] IN
                             SameFrame(g, v) /\ g.natoms = v.natoms /\ g.words = v.words)
    [] OTHER -> {}

(* what is loaded is what should be, with its changes *)
LoadedOK(r, s, st) ==
  /\ st.nb = [t \in DOMAIN r.nf |-> <<r.nf[t], r.F[t][1].natoms>>]
  /\ \A t \in DOMAIN r.nf : Len(st.ld[t]) = r.nf[t] /\ \A b \in 1..r.nf[t] :
        /\ st.flags[t][b] = (IF s.ld[t][b] = NotLoaded THEN 0 ELSE 1)
        /\ IF s.ld[t][b] = NotLoaded THEN st.ld[t][b] = <<>>
           ELSE Len(st.ld[t][b]) = 1 /\ SameFrame(st.ld[t][b][1], Bare(Value(r.F, s, <<t, b-1>>, U)))

RECURSIVE Walk(_, _, _, _)
Walk(r, i, s, acc) ==
  IF i > Len(r.steps) THEN acc ELSE
  LET st == r.steps[i]
      op == st.op
      ref == Refused(r.nf, s, op)
      s2 == TLCEval(Apply(r.nf, s, op))
      f == IF ~Allowed(r.nf, s, op) THEN {"NotAllowed"} ELSE
           Cl("Accepted", ref => st.err # "")
           \cup Cl("Refused_" \o op.o, ~ref => st.err = "")
           \cup (IF ref \/ st.err # "" THEN {} ELSE Seen(r, s, op, st))
           \cup Cl("Loaded", LoadedOK(r, s2, st))
  IN Walk(r, i+1, s2, TLCEval(acc \cup f))
FailTraj(r) == Cl("FileKept", r.same) \cup Cl("Leftovers", r.left = <<>>) \cup Walk(r, 1, S0(r.nf), {})
=============================================================================
