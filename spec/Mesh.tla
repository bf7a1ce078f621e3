-------------------------------- MODULE Mesh --------------------------------
(* C02: an editable triangle mesh.  Abstract state: the vertex sequence (each *)
(* vertex value is one integer, the harness spreads it over x, y, z) and the  *)
(* sequence of faces (triples of vertex ids).  Ids are positions and never    *)
(* move; rejected edits change nothing.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs,      \* subset of container configurations "<data>/<index>"
          MaxOps, MaxV, MaxF, Bulk

VARIABLES st, hist, done
vars == <<st, hist, done>>

NV(s) == Len(s.V)
NF(s) == Len(s.F)

Face(s, f) == [k \in 1..3 |-> IF f[k] < NV(s) THEN s.V[f[k] + 1] ELSE -777]
FaceVerts(s, f) == IF \A k \in 1..3 : f[k] < NV(s) THEN Face(s, f) ELSE "None"
Obs(s, r) == [r |-> r, nf |-> NF(s), nv |-> NV(s), F |-> s.F,
              FV |-> [i \in 1..NF(s) |-> FaceVerts(s, s.F[i])], V |-> s.V, oob |-> TRUE]

AddVertex(s, k) == [s |-> [s EXCEPT !.V = Append(@, k)], r |-> NV(s)]
AddVertices(s, k, n) == [s |-> [s EXCEPT !.V = @ \o [i \in 1..n |-> k + i - 1]], r |-> NV(s) + n - 1]
AddFace(s, ks) == [s |-> [s EXCEPT !.V = @ \o ks, !.F = Append(@, <<NV(s), NV(s) + 1, NV(s) + 2>>)], r |-> NF(s)]
Connect(s, v) == IF \E k \in 1..3 : v[k] >= NV(s) THEN [s |-> s, r |-> "IncorrectVertexID"]
                 ELSE IF v[1] = v[2] \/ v[1] = v[3] \/ v[2] = v[3] THEN [s |-> s, r |-> "FaceIDsNotUnique"]
                 ELSE [s |-> [s EXCEPT !.F = Append(@, v)], r |-> NF(s)]
ChangeVertex(s, v, k) == IF v < NV(s) THEN [s |-> [s EXCEPT !.V[v + 1] = k], r |-> "ok"]
                         ELSE [s |-> s, r |-> "IncorrectVertexID"]
Move(s, k) == [s |-> [s EXCEPT !.V = [i \in 1..NV(s) |-> s.V[i] + k]], r |-> "ok"]
Same(s) == [s |-> s, r |-> "ok"]
\* a searchable mesh built around the mesh, edited, and unwrapped again: nothing but the edit happens
Search(s, op) == LET a == AddVertex(s, op.k)  b == ChangeVertex(a.s, op.v, op.kk) IN [s |-> b.s, r |-> <<ToString(a.r), b.r>>]

Apply(s, op) == CASE op.op = "addv" -> AddVertex(s, op.k)
                  [] op.op = "addvs" -> AddVertices(s, op.k, op.n)
                  [] op.op = "addf" -> AddFace(s, op.ks)
                  [] op.op = "con" -> Connect(s, op.vs)
                  [] op.op = "chg" -> ChangeVertex(s, op.v, op.k)
                  [] op.op = "mov" -> Move(s, op.k)
                  [] op.op = "search" -> Search(s, op)
                  [] op.op \in {"start", "res", "rebuild"} -> Same(s)

Ids(s) == {0, 1, NV(s) - 1, NV(s), NV(s) + 1} \cap Nat
Fresh(s) == 10 * Len(hist.ops)
\* behaviours with many vertices begin with them
Ops(s) == IF Bulk > 0 /\ Len(hist.ops) = 1 THEN {[op |-> "addvs", k |-> 1000, n |-> Bulk + d] : d \in 0..4} ELSE
          (IF NV(s) < MaxV THEN {[op |-> "addv", k |-> Fresh(s)]} ELSE {})
          \cup (IF Bulk > 0 /\ NV(s) < MaxV THEN {[op |-> "addvs", k |-> 1000, n |-> Bulk]} ELSE {})
          \cup (IF NV(s) + 3 <= MaxV /\ NF(s) < MaxF THEN {[op |-> "addf", ks |-> <<Fresh(s) + 1, Fresh(s) + 2, Fresh(s) + 3>>]} ELSE {})
          \cup (IF NF(s) < MaxF THEN {[op |-> "con", vs |-> <<a, b, c>>] : a \in Ids(s), b \in Ids(s), c \in Ids(s)} ELSE {})
          \cup {[op |-> "chg", v |-> v, k |-> Fresh(s) + 5] : v \in Ids(s)}
          \cup (IF NV(s) < MaxV THEN {[op |-> "search", k |-> Fresh(s) + 6, v |-> v, kk |-> Fresh(s) + 7] : v \in {0, NV(s), NV(s) + 1}} ELSE {})
          \cup {[op |-> "res", n |-> 3], [op |-> "rebuild"], [op |-> "mov", k |-> 2]}

Event(s, op) == LET a == Apply(s, op) IN op @@ [exp |-> Obs(a.s, a.r)]

Starts == { [V |-> <<>>, F |-> <<>>],
            [V |-> <<3, 4, 5, 6>>, F |-> <<<<0, 1, 2>>>>],
            [V |-> <<3, 4>>, F |-> <<<<0, 1, 2>>>>] }   \* a face that refers to a missing vertex

Dirs == [c \in {"pc/usize", "pc/dyn", "pc/u32", "vec/usize", "vec/dyn", "deque/u32", "f32/dyn", "f32/usize"} |->
            CASE c = "pc/usize" -> <<"pc", "usize">> [] c = "pc/dyn" -> <<"pc", "dyn">> [] c = "pc/u32" -> <<"pc", "u32">>
              [] c = "vec/usize" -> <<"vec", "usize">> [] c = "vec/dyn" -> <<"vec", "dyn">>
              [] c = "deque/u32" -> <<"deque", "u32">> [] c = "f32/dyn" -> <<"f32", "dyn">> [] c = "f32/usize" -> <<"f32", "usize">>]

Init == /\ done = FALSE
        /\ \E c \in Cfgs : \E s0 \in Starts :
             /\ st = s0
             /\ hist = [fam |-> "mesh", data |-> Dirs[c][1], ic |-> Dirs[c][2], V |-> s0.V, F |-> s0.F,
                        ops |-> <<Event(s0, [op |-> "start"])>>]

Next == \/ /\ Len(hist.ops) <= MaxOps
           /\ \E op \in Ops(st) :
                /\ st' = Apply(st, op).s
                /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>

\* every face that an edit created is valid and has three different corners
ValidFace(s, f) == Cardinality({f[1], f[2], f[3]}) = 3 /\ \A k \in 1..3 : f[k] < NV(s)
Inv == \A i \in 1..NF(st) : i > Len(hist.F) => ValidFace(st, st.F[i])
\* ids are stable: nothing that exists is renumbered or dropped, an edit touches at most one vertex (except move)
Stable == [][/\ Len(st'.F) >= Len(st.F) /\ SubSeq(st'.F, 1, Len(st.F)) = st.F
             /\ Len(st'.V) >= Len(st.V)]_vars

Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
