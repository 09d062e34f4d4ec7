------------------------------ MODULE TrajGen ------------------------------
(* Behaviours of trajectories: checked for what the machine promises, and inputs for the implementation. *)
EXTENDS Trajectory, Json, IOUtils, SequencesExt
CONSTANTS Sizes,     \* numbers of frames
          Len0,
          Small      \* the smaller set of operations, for enumerating
VARIABLES s, hist, rnd
vars == <<s, hist, rnd>>
Env(x, d) == IF x \in DOMAIN IOEnv THEN atoi(IOEnv[x]) ELSE d
Wanted == Env("GEN_N", 8)
Seed == Env("VERIF_SEED", 1)
Twist(x) == <<(x[1] * 171) % 30269, (x[2] * 172) % 30307>>
One(S, x) == LET q == SetToSeq(S) IN q[1 + ((x[1] + x[2]) % Len(q))]
Warm(n) == Twist(Twist(Twist(<<1 + ((n * 197 + Seed * 91) % 30000), 1 + ((n * 53 + Seed * 1009) % 30000)>>)))

NF == Sizes
T == DOMAIN NF
SizesAll == <<5, 3>>
SizesOne == <<3>>
Ends == IF Small THEN {None, -1, 1} ELSE {None, -7, -2, -1, 0, 1, 3, 9}
Steps == IF Small THEN {None, 2, -1} ELSE {None, 1, 2, 3, -1, -2}
Idx == IF Small THEN {-3, 0, 2, 3} ELSE {-6, -5, -3, -1, 0, 1, 2, 3, 4, 5}
Slices == {Op("slice", t, a, b, c) : t \in T, a \in Ends, b \in Ends, c \in Steps}
Indices == {Op("index", t, a, 0, 0) : t \in T, a \in Idx}
Blocks == {Op("block", t, a, 0, 0) : t \in T, a \in Idx}
Loads == {Op(o, t, a, 0, 0) : o \in {"load", "unload"}, t \in T, a \in 0..2} \cup {Op("change", t, a, b, 0) : t \in T, a \in 0..2, b \in 1..3}
Iters == {Op("iter", t, a, b, c) : t \in T, a \in 1..4, b \in {None, 0, 2, 9}, c \in 0..1} \cup {Op("repr", t, 0, 0, 0) : t \in T}
NSl == IF Small THEN 1..2 ELSE 1..8
Adds == {Op(o, a, b, 0, 0) : o \in {"add", "sum"}, a \in NSl, b \in NSl}
Uses == {Op(o, a, b, 0, 0) : o \in {"system", "ase", "dict", "file", "append"}, a \in NSl, b \in {0, 1}}
Families == <<Slices, Indices, Blocks, Loads, Loads, Loads, Iters, Adds, Uses, Uses, Uses>>
Ops == UNION {Families[i] : i \in DOMAIN Families}

Step(op) == Allowed(NF, s, op) /\ s' = Apply(NF, s, op) /\ hist' = Append(hist, op)
Init == s = S0(NF) /\ hist = <<>> /\ rnd = <<0, 0>>
Next == Len(hist) < Len0 /\ (\E op \in Ops : Step(op)) /\ UNCHANGED rnd
Spec == Init /\ [][Next]_vars
GenInit == \E n \in 1..Wanted : s = S0(NF) /\ hist = <<>> /\ rnd = Warm(n)
Possible(F) == {op \in F : Allowed(NF, s, op)}
Pick == /\ Len(hist) < Len0
        /\ rnd' = Twist(Twist(rnd))
        /\ LET G == SelectSeq(Families, LAMBDA F : Possible(F) # {})
               x == Twist(rnd)
           IN Step(One(Possible(G[1 + ((x[1] + x[2]) % Len(G))]), rnd'))
GenSpec == GenInit /\ [][Pick]_vars
Emit == Len(hist) = Len0 => PrintT("HIST " \o ToJson(hist))
EmitStep == Len(hist') = Len0 => PrintT("HIST " \o ToJson(hist'))
View == <<s, Len(hist)>>

(* ---- the machine itself ---- *)
(* slices only ever hold frames that exist *)
SlicesOK == \A i \in DOMAIN s.sl : \A j \in DOMAIN s.sl[i] : s.sl[i][j][1] \in T /\ s.sl[i][j][2] \in 0..(NF[s.sl[i][j][1]]-1)
(* nothing that is used, and nothing that is refused, changes anything; slices stay as they are *)
Inert == \A op \in Ops : Allowed(NF, s, op) =>
   LET n == Apply(NF, s, op) IN
     /\ op.o \in {"system", "ase", "dict", "file", "append", "block", "iter", "repr"} => n = s
     /\ Refused(NF, s, op) => n = s
     /\ SubSeq(n.sl, 1, Len(s.sl)) = s.sl
     /\ \A t \in T : \A b \in 1..NF[t] : n.ld[t][b] # s.ld[t][b] => op.o \in {"load", "unload", "change"} /\ op.k = t /\ op.a = b - 1
(* slicing is what it is for sequences *)
SliceLaws == hist = <<>> => \A n \in 0..4 : \A a, b \in {None, -5, -1, 0, 2, 5} :
   /\ SliceOf(n, None, None, None) = [i \in 1..n |-> i - 1]
   /\ SliceOf(n, None, None, -1) = [i \in 1..n |-> n - i]
   /\ \A c \in {None, 1, 2, -1, -2} : LET q == SliceOf(n, a, b, c) IN
        /\ \A i \in DOMAIN q : q[i] \in 0..(n-1)
        /\ \A i \in 1..(Len(q)-1) : q[i+1] - q[i] = (IF c = None THEN 1 ELSE c)
   /\ (a # None /\ a >= 0 /\ a <= n) => SliceOf(n, None, a, None) \o SliceOf(n, a, None, None) = SliceOf(n, None, None, None)
=============================================================================
