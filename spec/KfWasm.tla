------------------------------- MODULE KfWasm -------------------------------
(***************************************************************************)
(* The WebAssembly build: one instance and a sequence of calls on it.  A   *)
(* call with one argument is a parse and is answered as by the native      *)
(* parser; a call with another number of arguments is answered somehow;    *)
(* the instance goes on in both cases.                                     *)
(***************************************************************************)
EXTENDS KfPool, Json

CONSTANTS Calls,      \* calls per instance
          Source      \* how many sources of the pool are used

WSrcs == TLCEval(SetToSeq(Pool(0)))
NW == IF Source < Len(WSrcs) THEN Source ELSE Len(WSrcs)
WMeans == TLCEval([i \in DOMAIN WSrcs |-> Meaning(WSrcs[i])])
BadCounts == {0, 2, 3}
ParseCall(i) == [src |-> i, args |-> 1]
BadCall(n) == [src |-> 1, args |-> n]
(* json: "native" the text the native parser gives, "none"; err: "native" an error holding the native text, "none", "any" *)
Told(c) == IF c.args # 1 THEN [json |-> "none", err |-> "any"]
           ELSE IF WMeans[c.src].ok THEN [json |-> "native", err |-> "none"] ELSE [json |-> "none", err |-> "native"]

VARIABLES vRuns, vCalls, vTold
wvars == <<vRuns, vCalls, vTold>>
WInit == vRuns = TRUE /\ vCalls = << >> /\ vTold = << >>
WCall(c) == vRuns /\ Len(vCalls) < Calls /\ vCalls' = Append(vCalls, c) /\ vTold' = Append(vTold, Told(c)) /\ UNCHANGED vRuns
WNext == \/ (\E i \in 1..NW : WCall(ParseCall(i))) \/ (\E n \in BadCounts : WCall(BadCall(n)))
WSpec == WInit /\ [][WNext]_wvars
(* C25 *)
KeepsRunning == vRuns
AsFresh == \A k \in DOMAIN vCalls : vTold[k] = Told(vCalls[k])
JsonXorError == \A k \in DOMAIN vCalls : vCalls[k].args = 1 => (vTold[k].json = "native" <=> vTold[k].err = "none")
WEmit == Len(vCalls) = Calls => PrintT(ToJson([calls |-> vCalls]))
WPool == vCalls = << >> => \A i \in DOMAIN WSrcs : PrintT(ToJson([i |-> i, src |-> WSrcs[i]]))
=============================================================================
