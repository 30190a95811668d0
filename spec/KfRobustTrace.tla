--------------------------- MODULE KfRobustTrace ---------------------------
(* Acceptance of what was observed of a real parser: records are outcomes. *)
EXTENDS KfRobust, IOUtils

Recs == TLCEval(ndJsonDeserialize(IOEnv.KF_TRACE))
VARIABLE vI
YInit == vI \in {j \in DOMAIN Recs : j % Shards = Shard} /\ BInit
YSpec == YInit /\ [][FALSE]_<<vI, bvars>>
YReport == PrintT(<<IF Recs[vI] \in Outcomes /\ Admissible(Recs[vI]) THEN "+" ELSE "-", vI - 1>>)
=============================================================================
