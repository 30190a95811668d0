-------------------------- MODULE KfArtifactTrace --------------------------
(* Acceptance of artifacts written by the real code.  A record holds the compiled *)
(* schema as the program holds it, and the JSON written for it: [value, json].    *)
EXTENDS KfArtifact, Json, IOUtils

CONSTANTS Shard, Shards
Recs == TLCEval(ndJsonDeserialize(IOEnv.KF_TRACE))
VARIABLES vI
Check == vI \in {j \in DOMAIN Recs : j % Shards = Shard}
XInit == Check /\ vStage = "written" /\ vValue = Recs[vI].value /\ vJson = Recs[vI].json /\ vBack = Nil
XNext == vStage = "written" /\ Reread /\ UNCHANGED vI
XSpec == XInit /\ [][XNext]_<<avars, vI>>
XReport == vStage = "written" => PrintT(<<IF Serialises(vValue, vJson) THEN "+" ELSE "-", vI - 1>>)
=============================================================================
