--------------------------- MODULE TraceConstruct ---------------------------
(* Recorded results of making crystals, repeating, remapping and extracting. *)
EXTENDS Construct, Crystal, Conform

(* ---- make_crystal: lengths in 4096ths, r.a the lattice constant in 64ths, r.ca c/a in 1000ths ---- *)
Edge(r, k) == LET n == r.n[k] IN
  IF r.s # "hcp" \/ k = 1 THEN 64 * r.a * n
  ELSE IF k = 2 THEN (r.a * n * 110851 + 500) \div 1000
  ELSE IF r.ca % 1000 = 0 THEN 64 * r.a * n * (r.ca \div 1000)
  ELSE (r.a * n * r.ca * 8 + 62) \div 125
OffDiag(b) == {b[1][2], b[1][3], b[2][1], b[2][3], b[3][1], b[3][2]}
Twelfth(r, p, k) == RoundDiv(12 * r.n[k] * p[k], r.box[k][k])
NoBig(s) == \A i \in DOMAIN s : s[i] # BIG
FailCry(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET want == Sites(r.s, r.n)
      boxok == /\ OffDiag(r.box) = {0} /\ \A k \in 1..3 : Close(r.box[k][k], Edge(r, k), 2)
      u == TLCEval([i \in DOMAIN r.atoms |-> [k \in 1..3 |-> Twelfth(r, r.atoms[i].p, k)]])
  IN IF ~boxok THEN {"Box"} ELSE
     Cl("Number", Len(r.atoms) = Cardinality(want))
     \cup (IF \E i \in DOMAIN r.atoms : ~NoBig(r.atoms[i].p) THEN {"Positions"} ELSE
           Cl("Sites", {<<u[i], r.atoms[i].t>> : i \in DOMAIN r.atoms} = want)
           \cup Cl("OnSite", \A i \in DOMAIN r.atoms : \A k \in 1..3 : Abs(12 * r.n[k] * r.atoms[i].p[k] - u[i][k] * r.box[k][k]) <= 24 * r.n[k]))
     \cup Cl("Ids", {r.atoms[i].id : i \in DOMAIN r.atoms} = 1..Len(r.atoms) \/
                    Cardinality({r.atoms[i].id : i \in DOMAIN r.atoms}) = Len(r.atoms))

(* ---- noise: r.d displacements from the sites in 100ths of the standard deviation ---- *)
Mean2(d, k, m) == SumSeq([i \in DOMAIN d |-> (d[i][k] * d[i][m]) \div 16])
FailNoise(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET n == Len(r.d) IN
  IF n = 0 \/ \E i \in DOMAIN r.d : \E k \in 1..3 : Abs(r.d[i][k]) > 650 THEN {"NoiseRange"} ELSE
  Cl("NoiseOnly", r.same)
  \cup Cl("NoiseMean", \A k \in 1..3 : Abs(SumSeq([i \in DOMAIN r.d |-> r.d[i][k]])) <= 600 * ISqrt(n))
  \cup Cl("NoiseSize", \A k \in 1..3 : Abs(Mean2(r.d, k, k) - n*625) <= 5500 * ISqrt(n))
  \cup Cl("NoiseIndependent", \A k \in 1..2 : \A m \in (k+1)..3 : Abs(Mean2(r.d, k, m)) <= 4000 * ISqrt(n))
  \cup Cl("NoiseAtFaces", \A k \in 1..3 : \A side \in {0, 1} :
            LET D == [i \in DOMAIN r.d |-> IF r.low[i][k] = side THEN r.d[i][k] ELSE 0]
                N == SumSeq([i \in DOMAIN r.d |-> IF r.low[i][k] = side THEN 1 ELSE 0]) IN
            Abs(SumSeq(D)) <= 600 * ISqrt(N) + 600)

(* ---- repeat ---- *)
PT(A) == [i \in DOMAIN A |-> <<A[i].p, A[i].t>>]
FailRep(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET old == PT(r.before) new == PT(r.out) N == Len(old) want == TLCEval(Copies(r.cell, old, r.reps)) IN
  Cl("Number", Len(new) = N * (2*r.reps[1]+1) * (2*r.reps[2]+1) * (2*r.reps[3]+1))
  \cup Cl("Copies", Range1(new) = want)
  \cup Cl("First", Len(new) >= N /\ \A i \in 1..N : r.out[i] = r.before[i])
  \cup Cl("Ids", Cardinality({r.out[i].id : i \in DOMAIN r.out}) = Len(r.out))
  \cup Cl("Box", r.box = (IF r.scale THEN Enlarged(r.cell, r.reps) ELSE r.cell))
  \cup Cl("System", r.after = r.before)
  \cup Cl("Assigned", r.assigned = <<>> \/ r.assigned[1] = r.out)

(* ---- remap ---- *)
(* groups of atoms at one place: r.tol2 squared tolerance in squared grid units *)
FailMap(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET ib(id) == CHOOSE i \in DOMAIN r.before : r.before[i].id = id
      known == \A i \in DOMAIN r.out : \E k \in DOMAIN r.before : r.before[k].id = r.out[i].id
      ids == {r.out[i].id : i \in DOMAIN r.out}
      Twin(i, k) == Near2(r.cell, r.before[i].p, r.before[k].p) <= r.tol2
  IN IF ~known \/ Cardinality(ids) # Len(r.out) THEN {"Atoms"} ELSE
     Cl("Kept", IF r.images
                THEN \A i \in DOMAIN r.before :
                        Cardinality({k \in DOMAIN r.before : Twin(i, k) /\ r.before[k].id \in ids}) = 1
                ELSE Len(r.out) = Len(r.before))
     \cup UNION { LET o == r.out[i] b == r.before[ib(o.id)] IN
                  IF ~IsVec(o.p) THEN {"Positions"} ELSE
                  Cl("Shift", IsLatticeVec(r.cell, Sub(o.p, b.p)))
                  \cup Cl("Inside", Inside(r.cell, o.p))
                  \cup Cl("Type", o.t = b.t)
                  \cup Cl("Unmoved", (Inside(r.cell, b.p) /\ (IsOrtho(r.cell) \/ ~OnFace(r.cell, b.p))) => o.p = b.p)
                : i \in DOMAIN r.out }
     \cup Cl("Box", r.box = r.cell)
     \cup Cl("Assigned", IF r.assign THEN r.after = r.out ELSE r.after = r.before)

(* ---- extract_cubic_box ---- *)
FailCut(r) ==
  LET old == PT(r.before)
      R == TLCEval(Copies(r.cell, old, r.reps))
      a == old[1]
      none == \E k \in 1..3 : Along(R, a, k) = {}
  IN IF r.err2 # "" THEN Cl("Found", none) \cup Cl("Error", r.err2 = "ValueError") \cup Cl("System", r.after = r.before /\ r.box = r.cell) ELSE
     IF none \/ OffDiag(r.cube) # {0} THEN {"Cube"} ELSE
     LET e == <<r.cube[1][1], r.cube[2][2], r.cube[3][3]>>
         ch == TLCEval(CornerChoices(R, a, e))
         new == PT(r.out)
     IN Cl("Edges", ch # {})
        \cup Cl("Nearest", r.far \/ \A k \in 1..3 : e[k] = Min({Abs(d) : d \in Along(R, a, k)}))
        \cup Cl("Once", Cardinality(Range1(new)) = Len(new))
        \cup Cl("CutOut", \E d \in ch : Range1(new) = CutOut(R, Low(a, d), e))
        \cup Cl("Full", r.far \/ Len(new) * Abs(Det(r.cell)) = Len(old) * e[1] * e[2] * e[3])
        \cup Cl("Ids", Cardinality({r.out[i].id : i \in DOMAIN r.out}) = Len(r.out))
        \cup Cl("System", r.after = r.before /\ r.box = r.cell)

FailConstruct(r) == CASE r.kind = "cry" -> FailCry(r)
                      [] r.kind = "noise" -> FailNoise(r)
                      [] r.kind = "rep" -> FailRep(r)
                      [] r.kind = "map" -> FailMap(r)
                      [] r.kind = "cut" -> FailCut(r)
=============================================================================
