------------------------------ MODULE Voronoi ------------------------------
(* The Voronoi cell of an atom, as polyhedron.  Neighbors are displacements in grid units,
   vertices relative to the atom in 64ths of a grid unit.  A face is a neighbor together with
   a cycle of vertices. *)
EXTENDS Neighbors, Flt

(* position of a vertex relative to the bisector plane of a neighbor at v, in 64ths of a
   grid unit, times 2|v|: zero on the plane, positive beyond *)
Beyond(x, v) == 2 * Dot(x, v) - 64 * N2(v)
(* and the rounding of it *)
Slack(v) == 3 * ISqrt(N2(v)) + 6

(* vertices lie on the faces they belong to *)
OnFaces(X, faces, V) == \A k \in DOMAIN faces : \A i \in DOMAIN faces[k] :
                            Abs(Beyond(X[faces[k][i]], V[k])) <= Slack(V[k])
(* no atom is nearer to a vertex than this one *)
NoneCloser(X, all) == \A v \in all : \A i \in DOMAIN X : Beyond(X[i], v) <= Slack(v)

(* every edge of one face is an edge of exactly one other, in opposite direction: the
   surface is closed and oriented *)
EdgesOf(f) == {<<f[i], f[(i % Len(f)) + 1]>> : i \in DOMAIN f}
Closed(faces) ==
  LET E == UNION {EdgesOf(faces[k]) : k \in DOMAIN faces}
  IN /\ SumSeq([k \in DOMAIN faces |-> Len(faces[k])]) = Cardinality(E)
     /\ \A e \in E : <<e[2], e[1]>> \in E
Euler(X, faces) == 2 * (Len(X) + Len(faces)) - SumSeq([k \in DOMAIN faces |-> Len(faces[k])]) = 4

(* twice the area vector of a face, in (grid/16)^2 *)
Sixteenth(x) == <<x[1] \div 4, x[2] \div 4, x[3] \div 4>>
Area2(X, f) == LET a == Sixteenth(X[f[1]])
                   C(i) == Cross(Sub(Sixteenth(X[f[i]]), a), Sub(Sixteenth(X[f[i+1]]), a))
               IN FoldLeft(LAMBDA s, i : Add(s, C(i)), <<0,0,0>>, [i \in 1..(Len(f)-2) |-> i+1])
FAbs(n) == F(Abs(n))
FNorm2(w) == FAdd(FMul(FAbs(w[1]), FAbs(w[1])), FAdd(FMul(FAbs(w[2]), FAbs(w[2])), FMul(FAbs(w[3]), FAbs(w[3]))))
(* root of a number *)
FSqrt(a) == IF a[1] = 0 THEN a
            ELSE IF a[2] % 2 = 0 THEN FNorm(ISqrt(a[1] * 16384), (a[2] - 14) \div 2)
            ELSE FNorm(ISqrt(a[1] * 32768), (a[2] - 15) \div 2)

(* area of a face, times 512, in squared grid units *)
Area512(X, f) == FSqrt(FNorm2(Area2(X, f)))
(* three times the volume is the sum of area times distance to the face *)
Volume(X, faces, V) ==
  FDiv(FSum([k \in DOMAIN faces |-> FMul(Area512(X, faces[k]), F(Len16(V[k])))]), F(16 * 512 * 6))

(* faces with 3 to 6 edges that are long enough; edge lengths are recorded in 64ths *)
VoroVector(edges, areas, ecut, acut) ==
  [n \in 1..4 |-> Cardinality({k \in DOMAIN edges :
      areas[k] > acut /\ Cardinality({i \in DOMAIN edges[k] : edges[k][i] * 1000 > ecut * SumSeq(edges[k])}) = n + 2})]
VoroUnsure(edges, areas, ecut, acut) ==
  \E k \in DOMAIN edges : \/ Abs(areas[k] - acut) <= 20 + acut \div 40
                          \/ \E i \in DOMAIN edges[k] : Abs(edges[k][i] * 1000 - ecut * SumSeq(edges[k])) <= 2000 + 40*ecut
=============================================================================
