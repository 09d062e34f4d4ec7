----------------------------- MODULE Trajectory -----------------------------
(* Trajectories and slices of them, as their user sees them.

   A trajectory is a file with a fixed number of frames, some of which are loaded: a loaded
   frame has data of its own, which may be changed, and which is what is written.  A slice
   is a sequence of (trajectory, frame): slices never change; adding makes a new one.

   State: ld[t][b] is <<>> or the changes made to loaded frame b (numbered from 0) of trajectory
   t since it was loaded, a sequence of columns with <<"loaded">> for none; sl is the sequence of
   slices made so far. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Op(o, k, a, b, c) == [o |-> o, k |-> k, a |-> a, b |-> b, c |-> c]
None == 99     \* an end of a slice that is left out
NotLoaded == <<>>
Loaded == <<"loaded">>

S0(nf) == [ld |-> [t \in DOMAIN nf |-> [b \in 1..nf[t] |-> NotLoaded]], sl |-> <<>>]

(* the frames that lo:hi:step stands for, of n: as for Python sequences *)
Norm(x, n) == IF x < 0 THEN x + n ELSE x
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE Count(_, _, _)
Count(i, stop, step) == IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>> ELSE <<i>> \o Count(i + step, stop, step)
SliceOf(n, lo, hi, st) ==
  LET step == IF st = None THEN 1 ELSE st
      start == IF step > 0 THEN (IF lo = None THEN 0 ELSE Clamp(Norm(lo, n), 0, n))
               ELSE (IF lo = None THEN n - 1 ELSE Clamp(Norm(lo, n), -1, n - 1))
      stop == IF step > 0 THEN (IF hi = None THEN n ELSE Clamp(Norm(hi, n), 0, n))
              ELSE (IF hi = None THEN -1 ELSE Clamp(Norm(hi, n), -1, n - 1))
  IN Count(start, stop, step)
InRange(n, i) == -n <= i /\ i < n

Frames(t, q) == [i \in DOMAIN q |-> <<t, q[i]>>]

(* nf: the number of frames of the trajectories *)
Allowed(nf, s, op) ==
  CASE op.o \in {"slice", "index", "block", "iter", "repr"} -> op.k \in DOMAIN nf
    [] op.o \in {"load", "unload"} -> op.k \in DOMAIN nf /\ op.a \in 0..(nf[op.k]-1)
    [] op.o = "change" -> op.k \in DOMAIN nf /\ op.a \in 0..(nf[op.k]-1) /\ s.ld[op.k][op.a+1] # NotLoaded
    [] op.o \in {"add", "sum"} -> op.k \in DOMAIN s.sl /\ op.a \in DOMAIN s.sl
    [] op.o \in {"system", "ase", "dict", "file", "append"} -> op.k \in DOMAIN s.sl
Refused(nf, s, op) == \/ op.o \in {"index", "block"} /\ ~InRange(nf[op.k], op.a)
                      \/ op.o = "iter" /\ op.a = 4

Apply(nf, s, op) ==
  IF Refused(nf, s, op) THEN s ELSE
  CASE op.o = "slice" -> [s EXCEPT !.sl = Append(@, Frames(op.k, SliceOf(nf[op.k], op.a, op.b, op.c)))]
    [] op.o = "index" -> [s EXCEPT !.sl = Append(@, <<<<op.k, Norm(op.a, nf[op.k])>>>>)]
    [] op.o \in {"add", "sum"} -> [s EXCEPT !.sl = Append(@, s.sl[op.k] \o s.sl[op.a])]
    [] op.o = "load" -> [s EXCEPT !.ld[op.k][op.a+1] = Loaded]
    [] op.o = "unload" -> [s EXCEPT !.ld[op.k][op.a+1] = NotLoaded]
    [] op.o = "change" -> [s EXCEPT !.ld[op.k][op.a+1] = Append(@, IF op.b = 1 THEN "x" ELSE IF op.b = 2 THEN "type" ELSE "box")]
    [] OTHER -> s

(* the frames that iterating yields; at random: any without repetition *)
IterOK(n, how, m, got) ==
  LET w == IF m = None THEN n ELSE IF m < n THEN m ELSE n IN
  CASE how = 1 -> got = [i \in 1..w |-> i - 1]
    [] how = 2 -> got = [i \in 1..w |-> n - i]
    [] how = 3 -> Len(got) = w /\ (\A i \in DOMAIN got : got[i] \in 0..(n-1)) /\ Cardinality({got[i] : i \in DOMAIN got}) = w
    [] OTHER -> FALSE

(* ---- what a frame holds.  A frame: [step, box (rows of numbers), head (names), rows (numbers)] ---- *)
\* the changes are: 1 to every x, a type one higher, 1 to the upper bound of the box along x
ColNo(f, k) == CHOOSE c \in DOMAIN f.head : f.head[c] = k
HasCol(f, k) == \E c \in DOMAIN f.head : f.head[c] = k
Times(ch, k) == Cardinality({i \in DOMAIN ch : ch[i] = k})
Changed(f, ch, U) ==
  [f EXCEPT !.rows = [i \in DOMAIN f.rows |-> [c \in DOMAIN f.head |->
                        f.rows[i][c] + (CASE f.head[c] = "x" -> U * Times(ch, "x") [] f.head[c] = "type" -> U * Times(ch, "type") [] OTHER -> 0)]],
            !.box[1][2] = @ + U * Times(ch, "box")]
Value(F, s, fr, U) == Changed(F[fr[1]][fr[2]+1], s.ld[fr[1]][fr[2]+1], U)
(* the same data, whatever the order of the columns *)
SameFrame(g, f) == /\ g.step = f.step /\ g.box = f.box /\ Len(g.rows) = Len(f.rows)
                   /\ Len(g.head) = Len(f.head)
                   /\ \A c \in DOMAIN f.head : HasCol(g, f.head[c]) /\
                        \A i \in DOMAIN f.rows : g.rows[i][ColNo(g, f.head[c])] = f.rows[i][c]
=============================================================================
