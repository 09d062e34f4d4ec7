------------------------------- MODULE MCEnv -------------------------------
(* Centrosymmetry, angular parameter and chi parameters of all sets of neighbors on a grid. *)
EXTENDS Environment
CONSTANT MaxN
VARIABLES V
Dirs == {<<2,0,0>>, <<-2,0,0>>, <<0,2,0>>, <<0,0,-2>>, <<1,1,1>>, <<-1,-1,1>>, <<-1,1,-1>>, <<1,-1,-1>>, <<2,1,0>>}
Init == V = <<>>
Next == /\ Len(V) < MaxN
        /\ \E d \in Dirs : V' = Append(V, d)
Spec == Init /\ [][Next]_V

Even == Len(V) > 0 /\ Len(V) % 2 = 0
Inv(v) == Scale(-1, v)
Turn(v) == <<-v[2], v[1], v[3]>>
Map(W, f(_)) == [i \in DOMAIN W |-> f(W[i])]
CentroPos == Even => Centro(V) >= 0
CentroZero == Len(V) <= 3 => Centro(V \o Map(V, Inv)) = 0
CentroScale == Even => LET f(v) == Scale(3, v) IN Centro(Map(V, f)) = 9 * Centro(V)
CentroFree == Even => Centro(V) = Centro(Reverse(V)) /\ Centro(V) = Centro(Map(V, Turn)) /\ Centro(V) = Centro(Map(V, Inv))
(* no pairing of the neighbors gives less than the smallest sum *)
CentroPairing == Len(V) = 4 => \A p \in {<<1,2,3,4>>, <<1,3,2,4>>, <<1,4,2,3>>} :
   Centro(V) <= N2(Add(V[p[1]], V[p[2]])) + N2(Add(V[p[3]], V[p[4]]))

AngPos == Len(V) = 4 => Angular(V) >= -60
AngFree == Len(V) = 4 => /\ Close(Angular(V), Angular(Map(V, Turn)), 300) /\ Close(Angular(V), Angular(Map(V, Inv)), 300)
                         /\ Close(Angular(V), Angular(Reverse(V)), 300)
Tetra == {<<1,1,1>>, <<-1,-1,1>>, <<-1,1,-1>>, <<1,-1,-1>>}
AngZero == Len(V) = 4 => ((Range1(V) = Tetra) => Angular(V) <= 60) /\ ((Angular(V) <= 60) => Range1(V) = Tetra)

(* counting the cosines fulfils the condition on chi, and moving one count to another interval
   does so only if a cosine lies at the limit between them *)
Hist(cs) == [k \in 1..9 |-> Cardinality({i \in DOMAIN cs :
               /\ (k = 1 \/ cs[i] >= Edges[k]) /\ (k = 9 \/ cs[i] < Edges[k+1])})]
AtEdge(cs, k) == \E i \in DOMAIN cs : Abs(cs[i] - Edges[k+1]) <= 12
ChiRight == LET cs == Cosines(V) IN ChiOK(cs, Hist(cs), 12)
ChiStrict == Len(V) >= 2 => LET cs == Cosines(V) h == TLCEval(Hist(cs)) IN
   \A k \in 1..8 : h[k] > 0 /\ ~AtEdge(cs, k) =>
      ~ChiOK(cs, [h EXCEPT ![k] = @ - 1, ![k+1] = @ + 1], 12) /\ ~ChiOK(cs, [h EXCEPT ![k] = @ - 1], 12)
ChiTotal == LET n == Len(V) IN Len(Cosines(V)) = (n * (n-1)) \div 2
=============================================================================
