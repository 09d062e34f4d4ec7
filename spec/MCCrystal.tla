----------------------------- MODULE MCCrystal -----------------------------
(* The tables of sites describe the structures they are named after: coordination, composition,
   inversion and screw symmetries, and the same crystal for any number of cells. *)
EXTENDS Crystal
CONSTANT MaxRep
VARIABLES c, n
Init == c \in Structures /\ n = <<1,1,1>>
Next == \E k \in 1..3 : n[k] < MaxRep /\ n' = [n EXCEPT ![k] = @ + 1] /\ c' = c
Spec == Init /\ [][Next]_<<c, n>>

(* squared edges of the cell, times 3 *)
Metric == IF c = "hcp" THEN <<3, 9, 8>> ELSE <<3, 3, 3>>
Len2(d) == Metric[1]*d[1]*d[1] + Metric[2]*d[2]*d[2] + Metric[3]*d[3]*d[3]
(* neighbors of a site of the crystal without end, from its cell and the 26 around it *)
Around(s) == {<<Sub(t[1], s[1]), t[2]>> : t \in {<<Add(u[1], Scale(12, <<i,j,k>>)), u[2]>> : u \in Cell1(c), i \in -1..1, j \in -1..1, k \in -1..1}} \ {<<<<0,0,0>>, s[2]>>}
Shell(s) == LET A == TLCEval(Around(s)) m == CHOOSE x \in {Len2(a[1]) : a \in A} : \A a \in A : x <= Len2(a[1])
            IN {a \in A : Len2(a[1]) = m}
Coord(s) == Cardinality(Shell(s))
First == n = <<1,1,1>>
Coordination == First => \A s \in Cell1(c) :
   Coord(s) = CASE c = "sc" -> 6 [] c = "bcc" -> 8 [] c = "fcc" -> 12 [] c = "hcp" -> 12 [] c = "diamond" -> 4
                [] c = "a15" -> (IF s[1] \in Chains THEN 2 ELSE 12) [] c = "l12" -> 12 [] c = "b2" -> 8
Composition == First => CASE c = "l12" -> \A s \in Cell1(c) : LET k == Cardinality({a \in Shell(s) : a[2] = s[2]}) IN k = (IF s[2] = 1 THEN 0 ELSE 8)
                          [] c = "b2" -> \A s \in Cell1(c) : \A a \in Shell(s) : a[2] # s[2]
                          [] OTHER -> \A s \in Cell1(c) : s[2] = 1
(* twice the inverted shell around any site is a shell of some site *)
Inverted == First => \A s \in Cell1(c) : \E t \in Cell1(c) : t[2] = s[2] /\ {a[1] : a \in Shell(t)} = {Scale(-1, a[1]) : a \in Shell(s)}
Mod12(v) == <<v[1] % 12, v[2] % 12, v[3] % 12>>
Periodic == /\ {<<Mod12(s[1]), s[2]>> : s \in Sites(c, n)} = Cell1(c)
            /\ Cardinality(Sites(c, n)) = n[1]*n[2]*n[3]*Cardinality(Cell1(c))
            /\ \A s \in Sites(c, n) : \A k \in 1..3 : s[1][k] \in 0..(12*n[k]-1)
=============================================================================
