------------------------------ MODULE MCFiles ------------------------------
(* All small systems: what is written says what the system was, however it is presented. *)
EXTENDS Files
CONSTANTS Lens, Tilts, Coords, Origins
QT == {-1, 0, 2}
QC == {-2, 1}
TT == {-2, -1, 0, 1, 2}
TC == {-2, 0, 1, 4}
QO == {<<0,0,0>>, <<4,-2,1>>, <<-7,0,3>>}
VARIABLES sys, seen
vars == <<sys, seen>>
Boxes == {<<<<a, 0, 0>>, <<xy, b, 0>>, <<xz, yz, c>>>> : a \in Lens, b \in Lens, c \in Lens, xy \in Tilts, xz \in Tilts, yz \in Tilts}
Atom(p, id, t) == [p |-> p, id |-> id, t |-> t]
Init == /\ seen = FALSE
        /\ \E b \in Boxes, x \in Coords, y \in Coords, z \in Coords, t \in 1..2 :
             sys = [box |-> b, atoms |-> <<Atom(<<x, y, z>>, 2, t), Atom(<<z, x, y>>, 1, 1)>>]
Next == ~seen /\ seen' = TRUE /\ UNCHANGED sys
Spec == Init /\ [][Next]_vars
Orders == {<<1,2,3,4,5>>, <<5,4,3,2,1>>, <<3,1,4,2,5>>, <<2,3,1,5,4>>}
Strip(A) == [i \in DOMAIN A |-> Atom(A[i].p, A[i].id, A[i].t)]
RoundTrip == LET f == DumpOf(sys) IN BoxOf(f) = sys.box /\ Strip(AtomsOf(f, <<>>, 1)) = sys.atoms /\ (Tilted(f) <=> ~IsOrtho(sys.box))
OrderOfColumns == \A pi \in Orders : LET f == Permute(DumpOf(sys), pi) IN BoxOf(f) = sys.box /\ Strip(AtomsOf(f, <<>>, 1)) = sys.atoms
Origin == LET f == DumpOf(sys) IN \A o \in Origins : LET g == Shifted(f, o) IN
            /\ BoxOf(g) = sys.box
            /\ Tilted(f) => Strip(AtomsOf(g, <<>>, 1)) = sys.atoms
            /\ Lower(g) = Add(Lower(f), o)
\* scaled: the coordinates taken as fractions, of which one is a cell vector
Fractions == LET f == DumpOf(sys) g == [f EXCEPT !.head = <<"id", "type", "xs", "ys", "zs">>] IN
   \A o \in Origins : LET h == [g EXCEPT !.bounds = Shifted(f, o).bounds] IN
      \A i \in 1..2 : LET n == sys.atoms[i].p p == AtomsOf(h, <<>>, 1)[i].p IN
         /\ IsLatticeVec(sys.box, p)
         /\ Frac(sys.box, p) = Scale(Det(sys.box), n)
=============================================================================
