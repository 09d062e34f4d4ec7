---------------------------- MODULE TraceSurvey ----------------------------
(* Recorded surveys of structures.  r.atoms: the atoms of the structure as a System that reads the
   same file has them, with their Voronoi cells (judged by TraceField for C06).
   r.told: what a survey told. *)
EXTENDS Survey, Cell, Conform

Sure(r) == \A i \in OfType(r.atoms, r.t) : ~BetweenUnits(r.atoms[i].vol)
FailEnv(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  Cl("Structure", r.sysn = -1 \/ r.sysn = Len(r.atoms))
  \cup (IF ~Sure(r) THEN {} ELSE
        IF ~r.printed THEN Cl("Environments", Describes(r.atoms, r.t, r.vols, r.vvs, r.counts))
        ELSE Cl("Heading", r.heading = Cardinality(Volumes(r.atoms, r.t)))
             \cup Cl("Printed", /\ Ascending(r.vols) /\ Entries(r.vols) = Volumes(r.atoms, r.t)
                                /\ r.counts = [i \in DOMAIN r.vols |-> CountOf(r.atoms, r.t, r.vols[i])])
             \cup Cl("Fingerprints", IF OneToOne(r.atoms, r.t)
                                     THEN \A i \in DOMAIN r.vols : <<r.vols[i], r.vvs[i]>> \in Pairs(r.atoms, r.t)
                                     ELSE \A i \in DOMAIN r.vols : r.vvs[i] = <<>>))

(* where an atom that was listed is: x in 1e5ths of cell vectors, or on the grid *)
At(r, x, p) == IF r.direct
               THEN \A k \in 1..3 : Abs(Dot(x, <<r.cell[1][k], r.cell[2][k], r.cell[3][k]>>) - 100000 * p[k]) <= 3000
               ELSE x = p
FailVoid(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET T == r.told A == r.atoms
      Is(e, a) == e.t = a.t /\ Close(e.vol, a.vol, 3) /\ At(r, e.x, a.p)
  IN Cl("Structure", r.sysn = -1 \/ r.sysn = Len(r.atoms))
     \cup Cl("Heading", r.heading = -1 \/ r.heading = Len(T))
     \cup (IF \E i \in DOMAIN T : \E k \in 1..3 : Abs(T[i].x[k]) > 1000000 THEN {"Positions"} ELSE
           Cl("Listed", \A i \in DOMAIN A : (Tetrahedral(A[i], r.p) /\ ~VoidUnsure(A[i], r.p)) => Cardinality({k \in DOMAIN T : Is(T[k], A[i])}) = 1)
           \cup Cl("Only", \A k \in DOMAIN T : \E i \in DOMAIN A : Is(T[k], A[i]) /\ (Tetrahedral(A[i], r.p) \/ VoidUnsure(A[i], r.p))))

FailSurvey(r) == IF r.kind = "env" THEN FailEnv(r) ELSE FailVoid(r)
=============================================================================
