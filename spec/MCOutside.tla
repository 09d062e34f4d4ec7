----------------------------- MODULE MCOutside -----------------------------
(* A system of N atoms with any ids, LAMMPS with any order of its answer, and a plot drawn again and again. *)
EXTENDS Outside
CONSTANTS N, MaxId, MaxDraw

Perms == {p \in [1..N -> 1..N] : Cardinality(Range1(p)) = N}
Place(i) == 10 * i                      \* energies tell the places apart
E(i) == 7 * Place(i)
VARIABLES ids, phase, file, nums, eng, energy, keep, outline, fig
vars == <<ids, phase, file, nums, eng, energy, keep, outline, fig>>
Init == /\ ids \in {f \in [1..N -> 1..MaxId] : Cardinality(Range1(f)) = N}
        /\ phase = "idle" /\ file = <<>> /\ nums = <<>> /\ eng = <<>> /\ energy = [i \in 1..N |-> 0]
        /\ keep \in [1..N -> BOOLEAN] /\ outline = <<>> /\ fig = <<>>
Write == phase = "idle" /\ phase' = "written" /\ file' = [i \in 1..N |-> Place(i)]
         /\ UNCHANGED <<ids, nums, eng, energy, keep, outline, fig>>
RunIt == phase = "written" /\ phase' = "ran"
         /\ \E p \in Perms : nums' = p /\ eng' = [k \in 1..N |-> 7 * file[p[k]]]
         /\ UNCHANGED <<ids, file, energy, keep, outline, fig>>
Fails == phase = "written" /\ phase' = "idle" /\ file' = <<>> /\ UNCHANGED <<ids, nums, eng, energy, keep, outline, fig>>
Back == phase = "ran" /\ phase' = "done" /\ energy' = Received(nums, eng, N) /\ file' = <<>>
        /\ UNCHANGED <<ids, nums, eng, keep, outline, fig>>
Show == phase \in {"idle", "done"} /\ outline = <<>> /\ outline' = <<"edges">> /\ fig' = <<>>
        /\ UNCHANGED <<ids, phase, file, nums, eng, energy, keep>>
(* drawing makes a figure of its own from the outline *)
Draw == outline # <<>> /\ Len(fig) < MaxDraw
        /\ fig' = Append(fig, outline \o SelectSeq([i \in 1..N |-> IF keep[i] THEN i ELSE 0], LAMBDA x : x # 0))
        /\ UNCHANGED <<ids, phase, file, nums, eng, energy, keep, outline>>
Next == Write \/ RunIt \/ Fails \/ Back \/ Show \/ Draw
Spec == Init /\ [][Next]_vars

OwnEnergy == phase = "done" => \A i \in 1..N : energy[i] = E(i)
NoneBefore == phase # "done" => \A i \in 1..N : energy[i] = 0
NoFileLeft == phase \in {"idle", "done"} => file = <<>>
FiguresAlike == \A k \in DOMAIN fig : Len(fig[k]) = 1 + Cardinality(Chosen(keep, N)) /\ Range1(Tail(fig[k])) = Chosen(keep, N)
(* by the ids of the atoms instead of their places, some system gets energies of other atoms *)
ASSUME \E f \in [1..N -> 1..N] : Cardinality(Range1(f)) = N /\ \E i \in 1..N : E(f[i]) # E(i)
(* the edges of a cell, whichever way it is turned *)
ASSUME \A c \in {<< <<2,0,0>>, <<0,3,0>>, <<0,0,4>> >>, << <<2,1,0>>, <<-1,3,1>>, <<1,1,4>> >>, << <<0,2,1>>, <<3,0,0>>, <<1,0,3>> >>} :
          Cardinality(Edges(c)) = 12 /\ \A e \in Edges(c) : Cardinality(e) = 2
=============================================================================
