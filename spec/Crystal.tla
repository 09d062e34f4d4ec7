------------------------------ MODULE Crystal ------------------------------
(* Crystal structures: sites of the unit cell in twelfths of its edges, with types. *)
EXTENDS Num

Plus(S, d) == {Add(s, d) : s \in S}
Cub == {<<0,0,0>>}
Fcc == Cub \cup {<<0,6,6>>, <<6,0,6>>, <<6,6,0>>}
Faces == Fcc \ Cub
Centre == {<<6,6,6>>}
(* hexagonal packing in an orthogonal cell, b = sqrt(3) a: two layers of triangles *)
Layer == {<<0,0,0>>, <<6,6,0>>}
Hcp == Layer \cup {<<6,2,6>>, <<0,8,6>>}
Chains == {<<3,6,0>>, <<9,6,0>>, <<0,3,6>>, <<0,9,6>>, <<6,0,3>>, <<6,0,9>>}

Structures == {"sc", "bcc", "fcc", "hcp", "diamond", "a15", "l12", "b2"}
Typed(S, t) == S \X {t}
Cell1(c) == CASE c = "sc" -> Typed(Cub, 1)
              [] c = "bcc" -> Typed(Cub \cup Centre, 1)
              [] c = "fcc" -> Typed(Fcc, 1)
              [] c = "hcp" -> Typed(Hcp, 1)
              [] c = "diamond" -> Typed(Fcc \cup Plus(Fcc, <<3,3,3>>), 1)
              [] c = "a15" -> Typed(Cub \cup Centre \cup Chains, 1)
              [] c = "l12" -> Typed(Cub, 1) \cup Typed(Faces, 2)
              [] c = "b2" -> Typed(Cub, 1) \cup Typed(Centre, 2)

(* sites of n[1] x n[2] x n[3] cells *)
Sites(c, n) == {<<Add(s[1], Scale(12, <<i,j,k>>)), s[2]>> : s \in Cell1(c), i \in 0..(n[1]-1), j \in 0..(n[2]-1), k \in 0..(n[3]-1)}
=============================================================================
