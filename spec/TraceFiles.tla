----------------------------- MODULE TraceFiles -----------------------------
(* Files written and read by the implementation, against what files say. *)
EXTENDS Files, Conform

V3(u, v, tol) == Len(u) = 3 /\ Len(v) = 3 /\ \A k \in 1..3 : Close(u[k], v[k], tol)
Box3(a, b, tol) == Len(a) = 3 /\ \A k \in 1..3 : V3(a[k], b[k], tol)

(* a frame of the file must say what the system was *)
FrameOK(f, s, want, keys, step) ==
  Cl("Layout", /\ f.marks = <<"ITEM: TIMESTEP", "ITEM: NUMBER OF ATOMS", "ITEM: BOX BOUNDS", "ITEM: ATOMS">>
               /\ f.natoms = Len(s.atoms) /\ Len(f.rows) = Len(s.atoms)
               /\ f.head = <<"id", "type", "x", "y", "z">> \o keys
               /\ \A i \in DOMAIN f.rows : Len(f.rows[i]) = Len(f.head))
  \cup Cl("Timestep", f.step = step)
  \cup Cl("BoxWords", Tilted(f) => SubSeq(f.boxwords, 1, 3) = <<"xy", "xz", "yz">>)
  \cup Cl("FileBox", Box3(BoxOf(f), s.box, 2))
  \cup (IF Len(f.rows) # Len(s.atoms) \/ \E i \in DOMAIN f.rows : Len(f.rows[i]) # Len(f.head) THEN {} ELSE
        LET A == AtomsOf(f, keys, 1) IN
        Cl("FileAtoms", \A i \in DOMAIN A : /\ V3(A[i].p, s.atoms[i].p, 2)
                                            /\ A[i].id = s.atoms[i].id /\ A[i].t = s.atoms[i].t)
        \cup Cl("FileCustom", \A i \in DOMAIN A : \A k \in DOMAIN keys : Close(f.rows[i][ColOf(f.head, keys[k])].n, want[i][k], 1)))

ReadBack(o, s, want, keys) ==
  Cl("ReadCount", o.natoms = Len(s.atoms) /\ Len(o.atoms) = Len(s.atoms))
  \cup Cl("ReadBox", Box3(o.box, s.box, 2))
  \cup (IF Len(o.atoms) # Len(s.atoms) THEN {} ELSE
     Cl("ReadPos", \A i \in DOMAIN o.atoms : V3(o.atoms[i].p, s.atoms[i].p, 2))
     \cup Cl("ReadIds", \A i \in DOMAIN o.atoms : o.atoms[i].id = s.atoms[i].id /\ o.atoms[i].t = s.atoms[i].t)
     \cup Cl("ReadCustom", \A i \in DOMAIN o.atoms : \A k \in DOMAIN keys : Close(o.atoms[i].cn[k], want[i][k], 1)))

FailDump(r) ==
  IF r.err2 # "" THEN {"Error"} ELSE
  Cl("Frames", Len(r.frames) = r.nframes)
  \cup UNION {FrameOK(r.frames[j], r.sys, r.want, r.keys, r.step + j - 1) : j \in DOMAIN r.frames}
  \cup ReadBack(r.obs, r.sys, r.want, r.keys)

(* structures with species: in ASE objects and in files that ASE writes *)
Same(r, tol) ==
  LET o == r.obs s == r.sys tt == TypesOf(r.names, r.order) IN
  Cl("ReadCount", o.natoms = Len(s.atoms) /\ Len(o.atoms) = Len(s.atoms))
  \cup Cl("ReadBox", Box3(o.box, s.box, tol))
  \cup (IF Len(o.atoms) # Len(s.atoms) THEN {} ELSE
     Cl("ReadPos", \A i \in DOMAIN o.atoms : V3(o.atoms[i].p, s.atoms[i].p, tol))
     \cup Cl("Species", \A i \in DOMAIN o.atoms : o.atoms[i].sp = r.names[i] /\ o.atoms[i].t = tt[i])
     \cup Cl("Numbered", \A i \in DOMAIN o.atoms : o.atoms[i].id = i))
FailSpecies(r) ==
  IF r.err2 # "" THEN {"Error"} ELSE
  Cl("Unchanged", r.unchanged)
  \cup (IF r.kind = "toase"
        THEN Cl("Object", /\ Box3(r.out.box, r.sys.box, 1) /\ r.out.pbc = <<1, 1, 1>> /\ Len(r.out.atoms) = Len(r.sys.atoms)
                          /\ \A i \in DOMAIN r.out.atoms : V3(r.out.atoms[i].p, r.sys.atoms[i].p, 1) /\ r.out.atoms[i].sp = r.names[i])
        ELSE {})
  \cup Same(r, 2)

(* the POSCAR without species: atoms in the order of their types *)
FailLegacy(r) ==
  IF r.err2 # "" THEN {"Error"} ELSE
  LET s == r.sys o == r.out
      ts == SortInts(SetToSeq({s.atoms[i].t : i \in DOMAIN s.atoms}))
      grp(t) == SelectSeq([i \in DOMAIN s.atoms |-> i], LAMBDA i : s.atoms[i].t = t)
      order == FoldLeft(LAMBDA a, t : a \o grp(t), <<>>, ts)
  IN Cl("Unchanged", r.unchanged)
     \cup Cl("Legacy", /\ o.scale = 1000000 /\ Box3(o.box, s.box, 1) /\ o.mode = "Cartesian"
                       /\ o.counts = [k \in DOMAIN ts |-> Len(grp(ts[k]))]
                       /\ Len(o.rows) = Len(s.atoms)
                       /\ \A i \in DOMAIN o.rows : V3(o.rows[i], s.atoms[order[i]].p, 1))

(* files of others *)
FailRead(r) ==
  IF r.err2 # "" THEN {"Error"} ELSE
  Cl("Snapshots", Len(r.obs) = r.nread)
  \cup UNION { LET f == r.frames[j] o == r.obs[j] IN
       Cl("Count", o.natoms = f.natoms /\ Len(o.atoms) = f.natoms)
       \cup Cl("Box", o.box = [k \in 1..3 |-> Scale(64, BoxOf(f)[k])])
       \cup (IF Len(o.atoms) # f.natoms THEN {} ELSE
            LET A == AtomsOf(f, r.keys, 64) IN
            Cl("Positions", \A i \in DOMAIN A : o.atoms[i].p = A[i].p)
            \cup Cl("IdsTypes", \A i \in DOMAIN A : o.atoms[i].id = A[i].id /\ o.atoms[i].t = A[i].t)
            \cup Cl("Custom", \A i \in DOMAIN A : o.atoms[i].c = A[i].c)
            \cup Cl("Place", \A i \in DOMAIN A : o.atoms[i].loc = i - 1))
     : j \in 1..Min2(Len(r.obs), r.nread) }

FailBadFile(r) == Cl("Refused", r.err2 = (CASE r.which = "nocoords" -> "ValueError" [] r.which \in {"nokey", "nokey2"} -> "KeyError"
                                            [] r.which = "nofile" -> "FileNotFoundError" [] r.which = "badformat" -> "TypeError"))

FailPosread(r) ==
  IF r.err2 # "" THEN {"Error"} ELSE
  LET o == r.obs names == Names(r.names, r.counts, 1) tt == TypesOf(names, r.order) P == PosAtoms(r) U == IF r.direct THEN 64 ELSE 1
  IN Cl("Count", o.natoms = Len(names) /\ Len(o.atoms) = Len(names))
     \cup Cl("Box", o.box = PosCell(r))
     \cup (IF Len(o.atoms) # Len(names) THEN {} ELSE
       \* direct coordinates have a factor of 64 too many to be exact in 4096ths
       Cl("Positions", \A i \in DOMAIN names : \A k \in 1..3 : Close(U * o.atoms[i].p[k], P[i][k], U))
       \cup Cl("Species", \A i \in DOMAIN names : o.atoms[i].sp = names[i] /\ o.atoms[i].t = tt[i])
       \cup Cl("Numbered", \A i \in DOMAIN names : o.atoms[i].id = i))

FailObject(r) ==
  IF r.err2 # "" THEN {"Error"} ELSE
  LET o == r.obs tt == TypesOf(r.names, r.order)
  IN Cl("Count", o.natoms = Len(r.names) /\ Len(o.atoms) = Len(r.names))
     \cup Cl("Box", o.box = r.cell)
     \cup (IF Len(o.atoms) # Len(r.names) THEN {} ELSE
       Cl("Positions", \A i \in DOMAIN r.names : o.atoms[i].p = r.pos[i])
       \cup Cl("Species", \A i \in DOMAIN r.names : o.atoms[i].sp = r.names[i] /\ o.atoms[i].t = tt[i])
       \cup Cl("Numbered", \A i \in DOMAIN r.names : o.atoms[i].id = i))

FailFiles(r) == CASE r.kind = "dump" -> FailDump(r)
                  [] r.kind \in {"toase", "poscar", "extxyz", "data"} -> FailSpecies(r)
                  [] r.kind = "legacy" -> FailLegacy(r)
                  [] r.kind = "read" -> FailRead(r)
                  [] r.kind = "badfile" -> FailBadFile(r)
                  [] r.kind = "posread" -> FailPosread(r)
                  [] r.kind = "object" -> FailObject(r)
=============================================================================
