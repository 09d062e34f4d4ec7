---------------------------- MODULE TraceOutside ----------------------------
(* Recorded calls of calculate_energy with a stand-in for LAMMPS, and plots. *)
EXTENDS Outside, Conform

G(c) == [k \in 1..3 |-> [m \in 1..3 |-> c[k][m] \div 16]]
NoBig(s) == \A i \in DOMAIN s : s[i] # BIG

FailEnergy(r) ==
  LET n == Len(r.pos)
      m == TLCEval([i \in 1..n |-> Sixteenths(G(r.cell), r.pos[i])])
      E == TLCEval([i \in 1..n |-> -EnergyAt(m[i])])
      broken == r.fault # ""
  IN Cl("Kept", r.after = r.before)
     \cup Cl("NoFileLeft", r.left = 0)
     \cup (IF broken
           THEN Cl("Refused", r.err2 = r.fault) \cup Cl("EnergiesKept", r.energy = r.energy0)
           ELSE IF r.err2 # "" THEN {"Raised"} ELSE
                Cl("File", Len(r.file) = n /\ {<<r.file[k].m, r.file[k].t>> : k \in DOMAIN r.file} = {<<m[i], r.types[i]>> : i \in 1..n})
                \cup Cl("Commands", r.style = r.gavestyle /\ r.coeff = r.gavecoeff /\ r.mass = r.gavemass)
                \cup Cl("Energy", r.energy = E)
                \cup (IF ~r.averaged THEN {} ELSE
                      Cl("Neighbors", r.nb = r.nb0)
                      \cup Cl("Average", \A i \in 1..n : r.avg[i] # BIG /\ Abs(r.avg[i] * (Len(r.nb[i]) + 1) - 512 * SumWith(E, r.nb[i], i)) <= 2 * (Len(r.nb[i]) + 1))))

FailShow(r) ==
  LET n == Len(r.pos)
      C == Chosen(r.keep, n)
  IN Cl("Kept", r.after = r.before)
     \cup (IF r.err2 # "" THEN {"Raised"} ELSE
       Cl("Drawn", Len(r.figs) = Len(r.sizes))
       \cup UNION { LET f == r.figs[k] IN
            Cl("Cell", UNION {Segments(f.lines[i]) : i \in DOMAIN f.lines} = Edges(r.cell))
            \cup Cl("Size", f.size = r.sizes[k])
            \cup Cl("Title", f.title = r.colorby)
            \cup (IF Len(f.p) # Cardinality(C) THEN {"Number"}
                  ELSE IF \E i \in DOMAIN f.p : ~NoBig(f.p[i]) THEN {"Places"} ELSE
                  LET of(i) == {x \in DOMAIN f.p : IsLatticeVec(r.cell, Sub(f.p[x], r.pos[i]))} IN
                  Cl("Places", \A i \in C : Cardinality(of(i)) = 1)
                  \cup Cl("Inside", \A x \in DOMAIN f.p : LET D == Abs(Det(r.cell)) s == Sgn(Det(r.cell)) w == Frac(r.cell, f.p[x]) IN
                                       \A a \in 1..3 : s * w[a] >= 0 /\ s * w[a] <= D)
                  \cup (IF r.colorby = "" THEN Cl("OneColor", Cardinality(Range1(f.color)) <= 1)
                        ELSE Cl("Color", Len(f.color) = Len(f.p) /\ \A i \in C : \A x \in of(i) : f.color[x] = r.colors[i])))
            : k \in DOMAIN r.figs })

FailOutside(r) == IF r.kind = "energy" THEN FailEnergy(r) ELSE FailShow(r)
=============================================================================
