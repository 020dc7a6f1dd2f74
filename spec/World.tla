-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* The world loader: a file lists objects; whoever looks at the simulation is   *)
(* shown them and the vehicle. Models are looked up in the locations of the     *)
(* search path, in order, and last in the user's own models.                    *)
(* A model file is a pair <<location, path>>; not every object is a model       *)
(* (model = "").                                                                *)
(***************************************************************************)
EXTENDS Common

OWN == "/.gazebo/models"
HomeOf(home) == IF home = "-" THEN <<>> ELSE <<home \o OWN>>
Locations(paths, home) == paths \o HomeOf(home)
Finds(locs, files, m) == {k \in 1..Len(locs) : <<locs[k], m>> \in files}
Found(locs, files, m) == Finds(locs, files, m) # {}
Resolve(locs, files, m) == LET k == CHOOSE k \in Finds(locs, files, m) : \A j \in Finds(locs, files, m) : k <= j IN "file://~/" \o locs[k] \o m

SHAPES == [mesh |-> 10, cube |-> 1, sphere |-> 2, cylinder |-> 3]
Known(o) == o.type \in DOMAIN SHAPES
Drawable(locs, files, o) == Known(o) /\ (o.type = "mesh" /\ o.model # "" => Found(locs, files, o.model))
Mesh(locs, files, o) == IF o.type # "mesh" THEN "" ELSE IF o.model = "" THEN o.mesh ELSE Resolve(locs, files, o.model)

(* a file that cannot be read as a list of complete objects *)
Broken(flaw, n) == flaw = "syntax" \/ (flaw \in {"missing", "word"} /\ n > 0)
(* all or nothing: what is drawn when the file is looked at *)
Draws(flaw, objects, locs, files) ==
  /\ flaw # "unset" /\ ~Broken(flaw, Len(objects))
  /\ (flaw \in {"nofile", "scalar"} \/ \A k \in 1..Len(objects) : Drawable(locs, files, objects[k]))
Scene(flaw, objects, locs, files) ==
  IF flaw \in {"nofile", "scalar"} THEN <<>>
  ELSE [k \in 1..Len(objects) |-> [id |-> k, k |-> SHAPES[objects[k].type], f |-> objects[k].frame, mesh |-> Mesh(locs, files, objects[k]),
                                   p |-> objects[k].p, q |-> objects[k].q, s |-> objects[k].s]]
DRONE == "/matrice_100/meshes/Matrice_100.dae"
=============================================================================
