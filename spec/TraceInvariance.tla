--------------------------- MODULE TraceInvariance ---------------------------
(* Results for two descriptions of one arrangement.  For each quantity q:
   q.a[i] its value(s) for atom i of the first, q.b[k] for the k-th of the atoms r.hosts of the
   second, q.tol the rounding allowed; neighbors likewise as displacements with types. *)
EXTENDS Invariance, Conform

CloseAll(x, y, tol) == Len(x) = Len(y) /\ \A m \in DOMAIN x : (x[m] = y[m] \/ Close(x[m], y[m], tol))
NbrSet(n) == {<<n[m].v, n[m].t>> : m \in DOMAIN n}
(* A number of nearest atoms is told up to atoms at exactly the same distance (an atom's own images
   come in pairs): the lists then have the same distances, and what is not in both is around the atom. *)
Far(x) == CHOOSE c2 \in {N2(x[m].v) : m \in DOMAIN x} : \A m \in DOMAIN x : N2(x[m].v) <= c2
Lengths(n, l) == Cardinality({m \in DOMAIN n : N2(n[m].v) = l})
Around(a, h, c2) ==
  LET S == Shifts(a.cell, IF Len(a.pos) <= 8 THEN 4 ELSE 2)
      Near(v) == (\A k \in 1..3 : Abs(v[k]) <= 25000) /\ N2(v) > 0 /\ N2(v) <= c2
  IN UNION {LET d == Sub(a.pos[j], a.pos[h]) IN {<<Add(d, s), a.types[j]>> : s \in {t \in S : Near(Add(d, t))}} : j \in DOMAIN a.pos}
TieOf(r, h, x, y) ==
  /\ \A v \in {x[m].v : m \in DOMAIN x} \cup {y[m].v : m \in DOMAIN y} : Lengths(x, N2(v)) = Lengths(y, N2(v))
  /\ LET S == TurnedSet(r.w.R, Around(r.a, h, Far(x)))
     IN \A m \in DOMAIN y : <<y[m].v, y[m].t>> \in S
NbrSame(r, x, y) ==
  /\ NbrSet(y) = TurnedSet(r.w.R, NbrSet(x))
  /\ \A m \in DOMAIN y : IsVec(y[m].v) => \E l \in DOMAIN x : y[m].v = Apply3(r.w.R, x[l].v) /\ Close(x[l].w, y[m].w, 2)

(* an atom around which a distance that is listed occurs more often than it is listed *)
Choice(r, h, x) == x # <<>> /\ LET S == Around(r.a, h, Far(x)) IN
  \E m \in DOMAIN x : Cardinality({y \in S : N2(y[1]) = N2(x[m].v)}) > Lengths(x, N2(x[m].v))
(* quantity q follows from neighbors that are told up to ties only *)
Chosen(r, q) == q.dep # "" /\ \E d \in DOMAIN r.q : r.q[d].name = q.dep /\ \E h \in DOMAIN r.q[d].a : Choice(r, h, r.q[d].a[h])

FailInv(r) ==
  IF ~SameArrangement(r.a, r.b, r.w) THEN {"NotSame"} ELSE
  UNION { LET q == r.q[i] IN
          Cl("Accepted_" \o q.name, q.erra = q.errb)
          \cup (IF q.erra # "" \/ q.errb # "" THEN {} ELSE
          CASE q.kind = "atom" ->
                 Cl(q.name, Len(q.b) = Len(r.hosts) /\ \A k \in DOMAIN r.hosts : CloseAll(q.b[k], q.a[r.w.of[r.hosts[k]]], q.tol)
                    \/ Chosen(r, q))
            [] q.kind = "nbr" ->
                 Cl(q.name, Len(q.b) = Len(r.hosts) /\
                    \A k \in DOMAIN r.hosts : LET h == r.w.of[r.hosts[k]] x == q.a[h] y == q.b[k] IN
                       /\ Len(x) = Len(y) /\ \A m \in DOMAIN x : IsVec(x[m].v)
                       /\ NbrSame(r, x, y) \/ (q.ties /\ TieOf(r, h, x, y)))
            [] q.kind = "sys" -> Cl(q.name, CloseAll(q.a, q.b, q.tol))
            \* how often each label occurs, per cell of the first
            [] q.kind = "count" -> Cl(q.name, q.b = [m \in DOMAIN q.a |-> Abs(Det(r.w.M)) * q.a[m]])
            \* which atoms belong together: the same partition of the hosts
            [] q.kind = "part" -> Cl(q.name, \A k \in DOMAIN r.hosts : \A l \in DOMAIN r.hosts :
                    LET x == q.a[r.w.of[r.hosts[k]]] y == q.a[r.w.of[r.hosts[l]]]
                    IN (q.b[k] = -1) = (x = -1) /\ (x # -1 /\ y # -1 => (x = y) = (q.b[k] = q.b[l]))))
        : i \in DOMAIN r.q }
=============================================================================
