----------------------------- MODULE KfListener -----------------------------
(***************************************************************************)
(* The caller-supplied error listener: what it holds after parses and      *)
(* after errors the caller adds himself.  An entry is [msg, cls].          *)
(***************************************************************************)
EXTENDS KfPool, Json

CONSTANTS Steps        \* length of the histories generated

ErrNames == <<"my error", "another: 100% (with 7+ errors)">>
LSrcs == TLCEval(<<DB, DB \o "table t { a int, b int }", DB \o "table t { a int, a int }", DB \o "table t { a int ?", "?? !",
           DB \o "action a() { b(); }", DB \o "}", DB \o "action a() public public { select 1; }",
           DB \o "action a() { select random(); }", DB \o "@n(a=1) action a() { ' }">>)
LMeans == TLCEval([i \in DOMAIN LSrcs |-> Meaning(LSrcs[i])])

(* --- one step, as a relation between what was held and what was observed --- *)
(* o: [entries, msg, failed, nil, err, same, self, kept]                        *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<"0","1","2","3","4","5","6","7","8","9">>[n + 1] ELSE Dec(n \div 10) \o Dec(n % 10)
Holds(big, small) == \E i \in 0..(Len(big) - Len(small)) : SubSeq(big, i + 1, i + Len(small)) = small
(* the message of a listener: the first entry, and how many more there are *)
Story(es, msg) ==
  CASE Len(es) = 0 -> TRUE
    [] Len(es) = 1 -> msg = es[1].msg
    [] OTHER -> LET f == es[1].msg IN
                /\ Len(msg) > Len(f) /\ SubSeq(msg, 1, Len(f)) = f
                /\ Holds(SubSeq(msg, Len(f) + 1, Len(msg)), Dec(Len(es) - 1))
Grows(before, after) == Len(after) >= Len(before) /\ SubSeq(after, 1, Len(before)) = before
New(before, after) == SubSeq(after, Len(before) + 1, Len(after))

AddStep(before, e, o) ==
  /\ Grows(before, o.entries) /\ Len(o.entries) = Len(before) + 1
  /\ o.entries[Len(o.entries)].msg = e
  /\ ~ o.self /\ Story(o.entries, o.msg) /\ o.has
ParseStep(before, mg, o) ==
  LET new == New(before, o.entries) IN
  /\ Grows(before, o.entries) /\ o.kept /\ ~ o.self
  /\ Story(o.entries, o.msg) /\ o.has = (o.entries # << >>)
  /\ o.failed = (o.entries # << >>)
  /\ o.failed => o.same /\ o.first
  /\ IF mg.cls = {"syntax"} THEN new # << >> /\ \A i \in DOMAIN new : "syntax" \in ToSet(new[i].cls)
     ELSE IF before = << >>
     THEN \/ mg.ok /\ new = << >> /\ ~ o.nil
          \/ mg.fail /\ Len(new) = 1 /\ ToSet(new[1].cls) \cap mg.cls # {}
     ELSE new = << >> \/ (Len(new) = 1 /\ ToSet(new[1].cls) \cap mg.cls # {})

-----------------------------------------------------------------------------
(* The machine: every history, with every number of entries a parse may leave. *)
(* A listener comes from its constructor, or is the zero value of its type: there is no difference. *)
Births == {"made", "zero"}
VARIABLES vHeld, vHist, vBorn
lvars == <<vHeld, vHist, vBorn>>
Told(es) == [entries |-> es, failed |-> es # << >>, has |-> es # << >>, nil |-> es # << >>, same |-> TRUE, first |-> TRUE, self |-> FALSE, kept |-> TRUE,
             msg |-> IF es = << >> THEN "" ELSE IF Len(es) = 1 THEN es[1].msg
                     ELSE es[1].msg \o " (with " \o Dec(Len(es) - 1) \o "+ errors)"]
Op(k) == IF k <= Len(ErrNames) THEN <<"add", ErrNames[k]>>
         ELSE LET j == k - Len(ErrNames) - 1 IN <<"parse", LSrcs[1 + j \div 2], IF j % 2 = 0 THEN "" ELSE "trace">>
Ops == 1..(Len(ErrNames) + 2 * Len(LSrcs))
MgOf(k) == LMeans[1 + (k - Len(ErrNames) - 1) \div 2]
NInit == vHeld = << >> /\ vHist = << >> /\ vBorn \in Births
Do(k) == /\ Len(vHist) < Steps /\ vHist' = Append(vHist, k) /\ UNCHANGED vBorn
         /\ IF k <= Len(ErrNames) THEN vHeld' = Append(vHeld, [msg |-> ErrNames[k], cls |-> <<"stmt">>])
            ELSE LET mg == MgOf(k) IN
                 \E new \in {<< >>} \cup {<<[msg |-> "e", cls |-> <<x>>]>> : x \in mg.cls} \cup
                            {<<[msg |-> "e", cls |-> <<x>>], [msg |-> "f", cls |-> <<x>>]>> : x \in mg.cls \cap {"syntax"}} :
                   LET es == vHeld \o new IN ParseStep(vHeld, mg, Told(es)) /\ vHeld' = es
NNext == (\E k \in Ops : Do(k))
NSpec == NInit /\ [][NNext]_lvars

(* C20 *)
EmptyMeansGood == (vHist # << >> /\ vHeld = << >>) =>
   \A i \in DOMAIN vHist : vHist[i] > Len(ErrNames) /\ MgOf(vHist[i]).ok
NothingLost == [][Grows(vHeld, vHeld')]_vHeld
NEmit == (Len(vHist) = Steps \/ vHist = << >>) => PrintT(ToJson([born |-> vBorn, ops |-> [i \in DOMAIN vHist |-> Op(vHist[i])]]))

=============================================================================
