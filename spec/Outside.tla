------------------------------ MODULE Outside ------------------------------
(* What a system hands to other programs (LAMMPS, plotly), and what comes back to it. *)
EXTENDS Cell

(* ---- LAMMPS: the file numbers the atoms by their place in the list, whatever ids they have;
   LAMMPS lists energies in an order of its own, with those numbers ---- *)
(* file numbers and energies as LAMMPS lists them, to energies of the atoms of the system *)
Received(nums, eng, n) == [i \in 1..n |-> eng[CHOOSE k \in DOMAIN nums : nums[k] = i]]
(* sum of the energy of an atom and its neighbors, which its average is that of *)
SumWith(e, nb, i) == e[i] + SumSeq([k \in DOMAIN nb |-> e[nb[k]]])

(* places on a 16th of the cell vectors, g: cell vectors divided by 16 *)
Sixteenths(g, p) == LET D == Det(g) f == Frac(g, p) IN [k \in 1..3 |-> (IF D > 0 THEN f[k] \div D ELSE (-f[k]) \div (-D)) % 16]
(* the energy that the stand-in of LAMMPS gives to an atom, in 64ths and negative *)
EnergyAt(m) == (7 * m[1] + 31 * m[2] + 101 * m[3]) % 997

(* ---- the plot: one marker for each atom chosen, with its own color, and the twelve edges of the cell ---- *)
Corners(c) == {<<a, b, d>> : a \in 0..1, b \in 0..1, d \in 0..1}
Edges(c) == {{Comb(c, x), Comb(c, y)} : <<x, y>> \in {z \in Corners(c) \X Corners(c) : N2(Sub(z[1], z[2])) = 1}}
Segments(line) == {{line[i], line[i+1]} : i \in 1..(Len(line) - 1)}
Chosen(keep, n) == {i \in 1..n : keep[i]}
=============================================================================
