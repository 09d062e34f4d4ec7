-------------------------------- MODULE Atom --------------------------------
(* Atoms as records of what was last assigned to them, on their own and inside a System.

   Two atoms are held by the user (handles 1 and 2); a System has taken copies of two atoms,
   at its first two places.  Real numbers are counted in 64ths. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Reals == <<"cutoff", "avg_sij", "disorder", "avg_disorder", "volume", "avg_volume", "angular", "avg_angular",
           "centrosymmetry", "entropy", "avg_entropy", "energy", "avg_energy">>
Ints == <<"id", "type", "condition", "cluster", "bonds", "structure", "loc">>
Bools == <<"mask", "solid", "surface", "largest_cluster">>
RealLists == <<"vertex_vectors", "sro">>
IntLists == <<"chiparams", "vertex_numbers">>
Tables == <<"vertex_positions", "edge_lengths", "next_neighbor_distances", "cna", "common", "cna_bonds", "next_neighbors">>
\* of a given length
Fixed == <<"pos", "vorovector", "allq", "allaq">>
Size == [pos |-> 3, vorovector |-> 4, allq |-> 11, allaq |-> 11]
\* one value for every neighbor
PerNb == <<"neighbor_weights", "face_vertices", "face_perimeters">>
Attrs == Reals \o Ints \o Bools \o RealLists \o IntLists \o Tables \o Fixed \o PerNb \o <<"neighbors", "custom">>
Names == {Attrs[i] : i \in DOMAIN Attrs}
Number == [a \in Names |-> CHOOSE i \in DOMAIN Attrs : Attrs[i] = a]
No(a) == Number[a]
SetOf(s) == {s[i] : i \in DOMAIN s}
Kind == [a \in Names |-> CASE a \in SetOf(Reals) -> "real" [] a = "custom" -> "custom" [] a = "loc" -> "loc" [] a \in SetOf(Ints) -> "int"
          [] a \in SetOf(Bools) -> "bool" [] a \in SetOf(RealLists \o IntLists) -> "list" [] a \in SetOf(Tables) -> "table"
          [] a \in SetOf(Fixed) -> "fixed" [] a = "neighbors" -> "neighbors" [] OTHER -> "pernb"]
\* results of searches: assigning to these does nothing
Results == {"neighbor_distance", "neighbor_vector", "local_angles", "sij"}

Same(n, x) == [i \in 1..n |-> x]
New(pos, id, type) ==
  [a \in Names |->
     CASE a = "pos" -> pos [] a = "id" -> id [] a = "type" -> type
       [] a = "cluster" -> -1 [] a = "custom" -> 0
       [] a = "vorovector" -> Same(4, 0)
       [] a \in {"allq", "allaq"} -> Same(11, -64)
       [] Kind[a] \in {"real", "int", "bool", "loc"} -> 0
       [] OTHER -> <<>>]

(* the values that are assigned: number m of the attribute; n is the number of neighbors *)
Val(a, m, n) ==
  LET k == 100 * No(a) + 7 * m IN
  CASE Kind[a] \in {"real", "int"} -> k
    [] Kind[a] = "loc" -> m - 1
    [] Kind[a] = "custom" -> m
    [] Kind[a] = "bool" -> m % 2
    [] Kind[a] = "list" -> [i \in 1..(2*m) |-> k + i]
    [] Kind[a] = "table" -> [i \in 1..m |-> [j \in 1..(i + m - 1) |-> k + 10*i + j]]
    [] Kind[a] = "fixed" -> [i \in 1..Size[a] |-> k + i]
    [] a = "neighbors" -> [i \in 1..(3*m - 2) |-> 5*i + m]
    [] OTHER -> [i \in 1..n |-> k + i]

(* assigning one attribute; new neighbors have weights of one, and nothing is said of their faces *)
Any == -999999
Put(x, a, v) == IF a = "neighbors"
                THEN [x EXCEPT !.neighbors = v, !.neighbor_weights = Same(Len(v), 64),
                               !.face_vertices = Same(Len(v), Any), !.face_perimeters = Same(Len(v), Any)]
                ELSE [x EXCEPT ![a] = v]

Op(o, h, a, m, v) == [o |-> o, h |-> h, a |-> a, m |-> m, v |-> v]
S0 == [h |-> <<New(<<64, 128, 192>>, 1, 1), New(<<0, 0, 0>>, 0, 0)>>, sys |-> <<>>]
Qattr(a) == IF a = "aq" THEN "allaq" ELSE "allq"
At(x, i) == [x EXCEPT !.loc = i - 1]

(* is it refused?  "bad" are the requests that always are *)
Refused(s, op) == op.o = "bad" \/ (op.o = "put" /\ s.h[op.h].loc \notin {0, 1})
Allowed(s, op) ==
  CASE op.o \in {"fetch", "peek", "put", "add"} -> s.sys # <<>>
    [] op.o = "set" /\ Kind[op.a] = "pernb" -> Len(op.v) = Len(s.h[op.h].neighbors) /\ op.v # <<>>
    [] OTHER -> TRUE

Apply(s, op) ==
  CASE Refused(s, op) -> s
    [] op.o = "new" -> [s EXCEPT !.h[op.h] = New(op.v, op.m, op.m + 1)]
    [] op.o = "set" -> [s EXCEPT !.h[op.h] = Put(@, op.a, op.v)]
    [] op.o = "setq" -> [s EXCEPT !.h[op.h][Qattr(op.a)][op.m - 1] = op.v]
    [] op.o = "setqs" -> [s EXCEPT !.h[op.h][Qattr(op.a)] = [l \in 1..11 |->
                             IF \E i \in DOMAIN op.v : op.v[i][1] = l + 1
                             THEN op.v[CHOOSE i \in DOMAIN op.v : op.v[i][1] = l + 1][2] ELSE @[l]]]
    [] op.o = "assign" -> [s EXCEPT !.sys = <<At(s.h[1], 1), At(s.h[2], 2)>>]
    [] op.o = "fetch" -> [s EXCEPT !.h[op.h] = s.sys[op.m]]
    [] op.o = "put" -> [s EXCEPT !.sys[s.h[op.h].loc + 1] = s.h[op.h]]
    [] OTHER -> s             \* "ro", "peek", "add"

=============================================================================
