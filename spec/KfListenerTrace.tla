-------------------------- MODULE KfListenerTrace --------------------------
(* Acceptance of recorded histories of the real error listener. *)
EXTENDS KfListener, IOUtils

CONSTANTS Shard, Shards
(* Recorded histories: [ops, obs]. *)
Recs == TLCEval(ndJsonDeserialize(IOEnv.KF_TRACE))
VARIABLES vI, vAtStep, vFit
Held(r, j) == IF j = 1 THEN << >> ELSE r.obs[j - 1].entries
StepFits(r, j) ==
  IF r.ops[j][1] = "add" THEN AddStep(Held(r, j), r.ops[j][2], r.obs[j])
  ELSE Bind(Meaning(r.ops[j][2]), LAMBDA mg : ParseStep(Held(r, j), mg, r.obs[j]))
RInit == vI \in {j \in DOMAIN Recs : j % Shards = Shard} /\ vAtStep = 1 /\ vFit = TRUE /\ NInit /\ vBorn = "made"
RNext == /\ vFit /\ vAtStep <= Len(Recs[vI].ops)
         /\ vFit' = StepFits(Recs[vI], vAtStep) /\ vAtStep' = vAtStep + 1
         /\ UNCHANGED <<vI, lvars>>
RSpec == RInit /\ [][RNext]_<<vI, vAtStep, vFit, lvars>>
RReport == (~ vFit \/ vAtStep > Len(Recs[vI].ops)) => PrintT(<<IF vFit THEN "+" ELSE "-", vI - 1, vAtStep - 1>>)
=============================================================================
