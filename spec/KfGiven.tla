------------------------------ MODULE KfGiven ------------------------------
(* What the specification says about sources that are given to it.         *)
EXTENDS KfGen, IOUtils

Given == TLCEval(ndJsonDeserialize(IOEnv.KF_GIVEN))      \* records [src]
GivenAsked == TLCEval(JsonDeserialize(IOEnv.KF_SQL))     \* SQL text -> verdict of the library
GivenSqlLib(b) == IF b \in DOMAIN GivenAsked THEN GivenAsked[b] ELSE "unknown"

GivenInit == \E i \in {j \in DOMAIN Given : j % Shards = Shard} : Start(Given[i].src)
GivenSpec == GivenInit /\ [][CompileNext]_vars
=============================================================================
