------------------------------- MODULE WorldMC -------------------------------
(***************************************************************************)
(* Files come and go, the world file is rewritten, and now and then somebody    *)
(* looks. Checked: what is on the screen was a complete world when it was       *)
(* drawn; models come from the first location that has them; a broken file      *)
(* leaves what was drawn before.                                                *)
(***************************************************************************)
EXTENDS World
CONSTANTS PLACES, MODELS, FLAWS, OBJECTS
VARIABLES paths, home, files, flaw, objects, screen, drew
vars == <<paths, home, files, flaw, objects, screen, drew>>
Objects == {[type |-> t, frame |-> "f", mesh |-> IF m = "" THEN "package://x" ELSE "model:/" \o m, model |-> m, p |-> 0, q |-> 0, s |-> 0] : t \in {"mesh", "cube", "torus"}, m \in MODELS \cup {""}}
Init == /\ paths \in {<<>>} \cup {<<a>> : a \in PLACES} \cup {<<a, b>> : a, b \in PLACES} /\ home \in {"-", "h"} /\ files = {}
        /\ flaw = "unset" /\ objects = <<>> /\ screen = <<>> /\ drew = "nothing"
Locs == Locations(paths, home)
Put == \E k \in 1..Len(Locs) : \E m \in MODELS : files' = files \cup {<<Locs[k], m>>} /\ UNCHANGED <<paths, home, flaw, objects, screen>> /\ drew' = "nothing"
Gone == \E f \in files : files' = files \ {f} /\ UNCHANGED <<paths, home, flaw, objects, screen>> /\ drew' = "nothing"
Write == \E w \in FLAWS : \E n \in 0..OBJECTS : \E o \in [1..n -> Objects] : (n = 2 => o[1].type # "torus") /\ flaw' = w /\ objects' = o /\ UNCHANGED <<paths, home, files, screen>> /\ drew' = "nothing"
Look == IF Draws(flaw, objects, Locs, files) THEN screen' = Scene(flaw, objects, Locs, files) /\ drew' = "all" /\ UNCHANGED <<paths, home, files, flaw, objects>>
        ELSE drew' = "kept" /\ UNCHANGED <<paths, home, files, flaw, objects, screen>>
Next == Put \/ Gone \/ Write \/ Look
Spec == Init /\ [][Next]_vars
Numbered == \A k \in 1..Len(screen) : screen[k].id = k
AllOrNothing == drew = "all" /\ flaw = "none" => Len(screen) = Len(objects) /\ \A k \in 1..Len(objects) : objects[k].type \in {"mesh", "cube"}
NeverHalf == drew = "all" => flaw # "unset" /\ flaw # "syntax" /\ (flaw \in {"missing", "word"} => objects = <<>>)
(* the mesh shown is a file that is there, and no earlier location has it *)
FirstWins == drew = "all" => \A k \in 1..Len(screen) : objects[k].type = "mesh" /\ objects[k].model # "" =>
  \E i \in 1..Len(Locs) : /\ screen[k].mesh = "file://~/" \o Locs[i] \o objects[k].model
                          /\ <<Locs[i], objects[k].model>> \in files /\ \A j \in 1..i - 1 : <<Locs[j], objects[k].model>> \notin files
OwnLast == \A m \in MODELS : Found(Locs, files, m) /\ ~Found(paths, files, m) => home # "-"
=============================================================================
