---------------------------- MODULE MCInvariance ----------------------------
(* In every description of an arrangement the atoms have the same surroundings: all cells of a
   family, with all ways of shifting, moving, turning, and choosing and enlarging the cell. *)
EXTENDS Invariance
CONSTANTS Edges, Tilts, Depth

VARIABLES a, w, n
vars == <<a, w, n>>
Cells3 == {<<<<e, 0, 0>>, <<t, 3, 0>>, <<0, u, 4>>>> : e \in Edges, t \in Tilts, u \in Tilts}
Init == /\ a \in {[cell |-> c, pos |-> <<<<0,0,0>>, p>>, types |-> <<1, t>>] : c \in Cells3, p \in {<<1,1,2>>}, t \in {1, 2}}
        /\ w = [R |-> Id3, M |-> Id3, shift |-> <<0,0,0>>, of |-> <<1, 2>>, cells |-> <<<<0,0,0>>, <<0,0,0>>>>]
        /\ n = 0

Row(M, i, k, s) == [M EXCEPT ![i] = Add(@, Scale(s, M[k]))]
(* another cell of the same lattice *)
Shear == \E i \in 1..3 : \E k \in 1..3 \ {i} : \E s \in {-1, 1} : w' = [w EXCEPT !.M = Row(w.M, i, k, s)]
Swap == w' = [w EXCEPT !.M = <<w.M[2], w.M[1], w.M[3]>>]
(* twice the cell: every atom and a copy one old cell vector on *)
Double == \E i \in 1..3 : Abs(Det(w.M)) = 1 /\
            w' = [w EXCEPT !.M = [w.M EXCEPT ![i] = Scale(2, @)],
                           !.of = @ \o @, !.cells = @ \o [j \in DOMAIN @ |-> Add(@[j], w.M[i])]]
Move == \E j \in DOMAIN w.of : \E i \in 1..3 : \E s \in {-1, 1} : w' = [w EXCEPT !.cells[j] = Add(@, Scale(s, w.M[i]))]
Shift == \E d \in {<<1,0,0>>, <<0,-1,2>>} : w' = [w EXCEPT !.shift = Add(@, d)]
Turn == \E R \in {<<<<0,-1,0>>, <<1,0,0>>, <<0,0,1>>>>, <<<<0,0,1>>, <<0,1,0>>, <<1,0,0>>>>} :
           w' = [w EXCEPT !.R = <<Apply3(Turned(R, Id3), @[1]), Apply3(Turned(R, Id3), @[2]), Apply3(Turned(R, Id3), @[3])>>]
Label == w' = [w EXCEPT !.of = Reverse(@), !.cells = Reverse(@)]
Next == n < Depth /\ n' = n + 1 /\ a' = a /\ (Shear \/ Swap \/ Double \/ Move \/ Shift \/ Turn \/ Label)
Spec == Init /\ [][Next]_vars

B == [cell |-> NewCell(w.R, a.cell, w.M), pos |-> [j \in DOMAIN w.of |-> Copy(a, w, j)], types |-> [j \in DOMAIN w.of |-> a.types[w.of[j]]]]
Described == SameArrangement(a, B, w)
SameAround == \A j \in DOMAIN w.of : Surroundings(B, 3, j, 6) = TurnedSet(w.R, Surroundings(a, 2, w.of[j], 6))
(* a description with an atom in the wrong place, or one copy twice, is none *)
Strict == LET b == [B EXCEPT !.pos[1] = Add(@, <<0,0,1>>)]
              d == [w EXCEPT !.cells[1] = w.cells[Len(w.of)], !.of[1] = w.of[Len(w.of)]]
          IN ~SameArrangement(a, b, w) /\ ~SameArrangement(a, [B EXCEPT !.pos[1] = Copy(a, d, 1), !.types[1] = a.types[d.of[1]]], d)
=============================================================================
