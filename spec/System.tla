------------------------------- MODULE System -------------------------------
(* A System as its user sees it: what every operation does to atoms, box, neighbors and
   results, and on what every result depends.

   The dependence is kept as a recipe: the operations that, applied to a fresh system with the
   same atoms and box, give the same result.  An operation is a record of its name o and two
   numbers k and m. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Op(o, k, m) == [o |-> o, k |-> k, m |-> m]
Structural == {"assign", "rebox", "add", "setpos", "settype", "setcustom", "reassign"}
Searches == {"cut", "num", "adp", "sann", "vor"}
Auxiliary == {"cna", "dia", "csm"}              \* search neighbors of their own
Calculations == {"q", "qav", "qcond", "clear", "aq", "solid", "clus", "dis", "ang", "chi", "sro", "pm", "ent", "vv"}
Distributions == {"rdf", "pairs"}
Queries == {"getq", "dist", "conc", "file", "ase", "rep", "mutatoms", "mutatom", "mutbox", "custom", "iter", "lists", "poscar"}
\* refused: whatever the state is
Invalid == {"bad"}
\* refused for lack of neighbors
NeedsNeighbors == {"solid", "sro", "pm"}
\* searches that cannot be answered
Failing0 == {"fail"}

Stale == <<Op("stale", 0, 0)>>
Ls == {4, 6}
NoQ == [l \in Ls |-> <<>>]
\* nb: recipe of the neighbors; cond: what set the conditions in force; q: recipes of the q_l,
\* each with the conditions at that time; sol: recipe of the solid marks
S0 == [nb |-> <<>>, cond |-> <<>>, q |-> NoQ, qc |-> NoQ, sol |-> <<>>, ext |-> FALSE]

Known(s) == s.nb # <<>> /\ s.nb # Stale
Proper(s) == Known(s) /\ s.nb[1].o \in Searches
None(s) == s.nb = <<>>

(* the recipe of what an operation reports, <<>> if it reports nothing that is specified *)
Recipe(s, op) ==
  CASE op.o \in Searches \cup Auxiliary -> <<op>>
    [] op.o \in {"q", "qav", "solid"} -> IF Known(s) THEN s.nb \o s.cond \o <<op>> ELSE <<>>
    [] op.o \in {"qcond", "clear", "ang", "chi", "ent", "sro", "pm", "vv"} -> IF Known(s) THEN s.nb \o <<op>> ELSE <<>>
    [] op.o = "aq" -> IF s.q[op.k] # <<>> /\ s.qc[op.k] = s.cond THEN s.q[op.k] \o <<op>> ELSE <<>>
    [] op.o = "dis" -> IF s.q[op.k] # <<>> THEN s.q[op.k] \o <<op>> ELSE <<>>
    [] op.o = "clus" -> IF ~Known(s) THEN <<>> ELSE IF op.k = 1 THEN (IF s.sol # <<>> THEN s.sol \o <<op>> ELSE <<>>) ELSE s.nb \o <<op>>
    [] op.o \in Distributions -> IF s.ext THEN <<>> ELSE <<op>>
    [] OTHER -> <<>>

(* is the operation one the specification says something about here? *)
Allowed(s, op) ==
  CASE op.o \in Structural \cup Searches \cup Auxiliary \cup Queries \cup Invalid \cup Failing0 \cup {"reset"} -> TRUE
    [] op.o \in Distributions -> ~s.ext
    [] op.o \in NeedsNeighbors -> Proper(s) \/ None(s)
    [] op.o = "clus" -> Proper(s) /\ Recipe(s, op) # <<>>
    [] op.o = "vv" -> Proper(s) /\ s.nb[1].o = "vor"
    [] OTHER -> Recipe(s, op) # <<>>

(* does it have to be refused? *)
Refused(s, op) == op.o \in Invalid \cup Failing0 \/ (op.o \in NeedsNeighbors /\ None(s))

Apply(s, op) ==
  CASE op.o = "setcustom" -> s
    [] op.o \in Structural -> [s EXCEPT !.nb = IF @ = <<>> THEN @ ELSE Stale, !.cond = Stale, !.q = NoQ, !.qc = NoQ, !.sol = <<>>,
                                        !.ext = IF op.o \in {"assign", "reassign", "rebox", "add"} THEN FALSE ELSE @]
    [] op.o \in Searches \cup Auxiliary -> [s EXCEPT !.nb = <<op>>, !.cond = <<>>, !.q = NoQ, !.qc = NoQ, !.sol = <<>>, !.ext = @ \/ op.o = "vor"]
    [] op.o \in {"reset"} \cup Failing0 -> [s EXCEPT !.nb = <<>>, !.cond = <<>>, !.q = NoQ, !.qc = NoQ, !.sol = <<>>]
    [] Refused(s, op) -> s
    [] op.o \in {"q", "qav"} -> [s EXCEPT !.q[op.k] = Recipe(s, op), !.qc[op.k] = s.cond]
    [] op.o = "qcond" -> [s EXCEPT !.q[op.k] = Recipe(s, op), !.cond = <<op>>, !.qc[op.k] = <<op>>]
    [] op.o = "clear" -> [s EXCEPT !.q[op.k] = Recipe(s, op), !.cond = <<>>, !.qc[op.k] = <<>>]
    [] op.o = "solid" -> [s EXCEPT !.q[6] = Recipe(s, op), !.qc[6] = s.cond, !.sol = Recipe(s, op)]
    [] OTHER -> s

(* the fields that an operation may change; all others stay exactly as they are *)
Fields == {"nbr", "cutoff", "cond", "q", "aq", "sij", "solid", "bonds", "cluster", "largest", "structure",
           "vol", "geom", "vv", "dis", "avdis", "ang", "chi", "csm", "sro", "ent"}
\* everything that is listed per neighbor
PerNeighbor == {"nbr", "cutoff", "cond", "sij", "geom"}
Touches(s, op) ==
  CASE op.o \in Structural \ {"setcustom"} -> Fields
    [] op.o \in {"reset"} \cup Failing0 -> PerNeighbor
    [] Refused(s, op) -> {}
    [] op.o = "vor" -> PerNeighbor \cup {"vol"}
    [] op.o \in Searches -> PerNeighbor
    [] op.o \in {"cna", "dia"} -> PerNeighbor \cup {"structure"}
    [] op.o = "csm" -> PerNeighbor \cup {"csm"}
    [] op.o = "q" -> {"q"}
    [] op.o = "qav" -> {"q", "aq"}
    [] op.o = "qcond" -> {"q", "aq", "cond"}
    [] op.o = "clear" -> {"q", "cond"}
    [] op.o = "aq" -> {"aq"}
    [] op.o = "solid" -> {"q", "sij", "solid", "bonds", "cluster", "largest"}
    [] op.o = "clus" -> {"cluster", "largest"}
    [] op.o = "dis" -> {"dis", "avdis"}
    [] op.o = "ang" -> {"ang"}
    [] op.o = "chi" -> {"chi"}
    [] op.o \in {"sro", "pm"} -> {"sro"}
    [] op.o = "ent" -> {"ent"}
    [] op.o = "vv" -> {"vv"}
    [] OTHER -> {}

(* ---- atoms and box.  r names the arrangements that "assign" and others refer to ---- *)
\* atom 0 is the last
Nth(b, k) == IF k = 0 THEN Len(b.atoms) ELSE k
AddV(u, v) == <<u[1]+v[1], u[2]+v[2], u[3]+v[3]>>
ApplyBase(r, b, op) ==
  CASE op.o = "assign" -> [k |-> op.k, box |-> r.arr[op.k].box, atoms |-> r.arr[op.k].atoms]
    [] op.o = "rebox" -> [b EXCEPT !.box = r.arr[b.k].alt[op.k]]
    [] op.o = "add" -> [b EXCEPT !.atoms = @ \o r.arr[b.k].extra[op.k]]
    [] op.o = "setpos" -> [b EXCEPT !.atoms[Nth(b, op.k)].p = AddV(@, r.moves[op.m])]
    [] op.o = "settype" -> [b EXCEPT !.atoms[Nth(b, op.k)].t = op.m]
    [] op.o = "setcustom" -> [b EXCEPT !.atoms[Nth(b, op.k)].c = op.m]
    [] OTHER -> b
=============================================================================
