------------------------------- MODULE MCCna -------------------------------
(* The reference structures of common neighbor analysis, and what single changes of bonds do
   to them.  A behaviour starts from the neighbor shell of a structure and toggles bonds. *)
EXTENDS CNA
CONSTANT Depth

Fcc == <<<<1,1,0>>,<<1,-1,0>>,<<-1,1,0>>,<<-1,-1,0>>,<<1,0,1>>,<<1,0,-1>>,<<-1,0,1>>,<<-1,0,-1>>,
         <<0,1,1>>,<<0,1,-1>>,<<0,-1,1>>,<<0,-1,-1>>>>
Big(V, k) == [i \in DOMAIN V |-> Scale(k, V[i])]
Hcp == <<<<240,0,0>>,<<-240,0,0>>,<<120,208,0>>,<<120,-208,0>>,<<-120,208,0>>,<<-120,-208,0>>,
         <<0,139,196>>,<<120,-69,196>>,<<-120,-69,196>>,<<0,139,-196>>,<<120,-69,-196>>,<<-120,-69,-196>>>>
Ico == <<<<0,100,162>>,<<0,100,-162>>,<<0,-100,162>>,<<0,-100,-162>>,<<100,162,0>>,<<100,-162,0>>,
         <<-100,162,0>>,<<-100,-162,0>>,<<162,0,100>>,<<-162,0,100>>,<<162,0,-100>>,<<-162,0,-100>>>>
Bcc == <<<<1,1,1>>,<<1,1,-1>>,<<1,-1,1>>,<<1,-1,-1>>,<<-1,1,1>>,<<-1,1,-1>>,<<-1,-1,1>>,<<-1,-1,-1>>,
         <<2,0,0>>,<<-2,0,0>>,<<0,2,0>>,<<0,-2,0>>,<<0,0,2>>,<<0,0,-2>>>>
Shell(n) == CASE n = "fcc" -> Big(Fcc, 150) [] n = "hcp" -> Hcp [] n = "ico" -> Ico [] n = "bcc" -> Big(Bcc, 100)
Names == {"fcc", "hcp", "ico", "bcc"}
Recs(V) == [i \in DOMAIN V |-> [v |-> V[i], t |-> 1, j |-> i]]
Cut(n) == IF n = "bcc" THEN Cut14(Recs(Shell(n)), 0) ELSE Cut12(Recs(Shell(n)), 0)
Ref(n) == Adj(Shell(n), Cut(n))
Label(n) == CASE n = "fcc" -> 1 [] n = "hcp" -> 2 [] n = "ico" -> 4 [] n = "bcc" -> 3
Class(n, a) == IF n = "bcc" THEN Class14(a) ELSE Class12(a)

VARIABLES name, adj, changed
vars == <<name, adj, changed>>
Init == \E n \in Names : name = n /\ adj = Ref(n) /\ changed = {}
Toggle(i, j) == adj' = [adj EXCEPT ![i] = IF j \in @ THEN @ \ {j} ELSE @ \cup {j},
                                   ![j] = IF i \in @ THEN @ \ {i} ELSE @ \cup {i}]
Next == /\ Cardinality(changed) < Depth
        /\ \E i, j \in DOMAIN adj : i < j /\ <<i,j>> \notin changed
              /\ Toggle(i, j) /\ changed' = changed \cup {<<i,j>>} /\ UNCHANGED name
Spec == Init /\ [][Next]_vars

Perfect == changed = {} => Class(name, adj) = Label(name)
(* the bonds of a structure determine its label: any single change loses it *)
Rigid == Cardinality(changed) = 1 => Class(name, adj) = 0
Symmetric == \A i \in DOMAIN adj : i \notin adj[i] /\ \A j \in adj[i] : i \in adj[j]
(* each common neighbor of a bond shares it with both ends; bonds between them are counted once *)
Consistent == \A k \in DOMAIN adj :
   LET s == Sig(adj, k) IN /\ s[1] = Cardinality(adj[k])
                           /\ s[1] > 0 => s[4] <= s[3] /\ s[4] * s[1] <= 2*s[2] /\ 2*s[2] <= s[3] * s[1]
(* the order of neighbors, and how they are turned, do not matter *)
Turned == changed = {} => LET V == Shell(name)
   IN /\ Class(name, Adj(Reverse(V), Cut(name))) = Label(name)
      /\ Class(name, Adj([i \in DOMAIN V |-> <<V[i][2], -V[i][1], V[i][3]>>], Cut(name))) = Label(name)
      /\ Class(name, Adj([i \in DOMAIN V |-> <<V[i][3], V[i][1], V[i][2]>>], Cut(name))) = Label(name)
(* with the conventional cutoff for the same structure the result is the same *)
Conventional == changed = {} /\ name \in {"fcc", "bcc"} =>
   LET V == Shell(name) c == IF name = "fcc" THEN Cut12(Recs(V), 300) ELSE Cut14(Recs(V), 200)
   IN Class(name, Adj(V, c)) = Label(name)
(* without ties the definition gives exactly one label *)
Decided == changed = {} /\ name = "ico" => Labels(Ascending(Range1(Recs(Shell(name)) \o Recs(Big(Shell(name), 2)))), 0) = {4}
=============================================================================
