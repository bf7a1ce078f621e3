------------------------------ MODULE SaverMC --------------------------------
(* Meshes and clouds grow vertex by vertex and face by face; saving at any     *)
(* moment and reading back with the machines of the readers is the identity.   *)
EXTENDS Saver, Json
CONSTANTS MaxP, MaxF
VARIABLES pts, faces, nc, done
vars == <<pts, faces, nc, done>>
Pool == {<<0, 0, 0>>, <<1, 0, -2>>, <<3, 1, 0>>}
Init == pts = <<>> /\ faces = <<>> /\ nc = 0 /\ done = FALSE
AddPoint == ~done /\ Len(pts) < MaxP /\ faces = <<>> /\ \E p \in Pool : pts' = Append(pts, p) /\ nc' = nc /\ UNCHANGED <<faces, done>>
Ids == 0..(Len(pts) - 1)
AddFace == /\ ~done /\ Len(faces) < MaxF
           /\ \E a, b, c \in Ids : a # b /\ b # c /\ a # c /\ faces' = Append(faces, <<a, b, c>>)
           /\ UNCHANGED <<pts, nc, done>>
Save == ~done /\ done' = TRUE /\ nc' \in {Len(pts), Len(pts) + 1, IF pts = <<>> THEN 3 ELSE Len(pts) - 1} /\ UNCHANGED <<pts, faces>>
Next == AddPoint \/ AddFace \/ Save
Colours(n) == [i \in 1..n |-> <<0, 128, 255>>]
HeadLines(c) == Len(PlyHead(Len(pts), Len(faces), c))
Back(how) == IF how \in {"ply", "plyc"}
             THEN LET c == IF how = "plyc" THEN Colours(Len(pts)) ELSE <<>> IN
                  PlyRun(PlyHead(Len(pts), Len(faces), how = "plyc"), HeadLines(how = "plyc"), PlyBody(pts, faces, c), Len(pts) + Len(faces), TRUE)
             ELSE Whole(how, Lines(how, pts, faces))
Inv == \A how \in {"xy", "xyz", "ply", "plyc", "stl"} :
         LET r == Back(how) IN r.fin = "end" /\ r.items = ItemsOf(IF how = "plyc" THEN "ply" ELSE how, pts, faces)
Dump == done => PrintT("@@" \o ToJson([P |-> pts, F |-> faces, nc |-> nc]))
=============================================================================
