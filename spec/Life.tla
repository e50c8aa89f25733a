----------------------------------- MODULE Life -----------------------------------
(* The life of remapper objects (properties H01, H02).  An object has a source and a target
   setup (numbered, 0 for none), keeps what it derived from them, and is asked questions.
   Every history of calls up to a depth is a state; each question is answered from what
   the object keeps, and the theorems say that this is what its latest setups call for.
   A Monte Carlo object (C.mc) answers from weights it was told to compute, and refuses
   where it has none; weights may be saved (C.stored) and put back into any object with the
   setups they were computed for.  Objects do not influence each other. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, o, saved, hist
vars == <<i, o, saved, hist>>
C == Given[i]
None == <<>>
New == [src |-> 0, tgt |-> 0, wt |-> None, mask |-> None, ring |-> None, pix |-> None]
Ready == [New EXCEPT !.src = 1, !.tgt = IF C.tgts = 0 THEN 0 ELSE 1, !.wt = IF C.mc THEN <<1, 1, 1>> ELSE None]
Init == i \in 1..Len(Given) /\ o = [n \in 1..C.objects |-> IF C.ready THEN Ready ELSE New] /\ saved = None /\ hist = <<>>
-----------------------------------------------------------------------------------
Asked(op) == \E n \in 1..Len(C.ops) : C.ops[n] = op
Do(n, what, k, now, says) == /\ o' = [o EXCEPT ![n] = now]
                             /\ hist' = Append(hist, <<n, what, k, says>>)
                             /\ UNCHANGED <<i, saved>>
Quiet == <<"-">>
(* setting up drops whatever was derived *)
Source(n) == \E k \in 1..C.srcs : Do(n, "src", k, [New EXCEPT !.src = k, !.tgt = o[n].tgt], Quiet)
Target(n) == /\ ~C.ordered \/ o[n].src # 0
             /\ \E k \in 1..C.tgts : Do(n, "tgt", k, [New EXCEPT !.src = o[n].src, !.tgt = k], Quiet)
Clean(n) == Do(n, "clean", 0, New, Quiet)
(* a setup or question that is refused changes nothing *)
Complete(n) == o[n].src # 0 /\ (C.tgts = 0 \/ o[n].tgt # 0)
Bad(n) == Complete(n) /\ \E k \in 1..C.bad : Do(n, "bad", k, o[n], <<"refused">>)
Weigh(n) == /\ C.mc /\ Complete(n)
            /\ \E k \in 1..2 : Do(n, "weigh", k, [o[n] EXCEPT !.wt = <<o[n].src, o[n].tgt, k>>, !.mask = None], Quiet)
(* weights taken out and put back (not under a mask made with others) *)
Save(n) == /\ C.stored /\ o[n].wt # None
           /\ saved' = o[n].wt /\ hist' = Append(hist, <<n, "save", 0, Quiet>>) /\ UNCHANGED <<i, o>>
Put(n) == /\ C.stored /\ saved # None /\ o[n].mask = None
          /\ saved[1] = o[n].src /\ saved[2] = o[n].tgt
          /\ Do(n, "put", saved[3], [o[n] EXCEPT !.wt = saved], Quiet)
(* questions *)
Blind(n) == C.mc /\ o[n].wt = None
Basis(n) == IF C.mc THEN o[n].wt ELSE <<o[n].src, o[n].tgt, 0>>
Remap(n) == \E op \in {"remap", "remapw"} :
              Asked(op) /\ Do(n, op, 0, o[n], IF Blind(n) THEN <<"refused">> ELSE <<"says">> \o Basis(n))
Mask(n) == /\ Asked("mask")
           /\ IF Blind(n) THEN Do(n, "mask", 0, o[n], <<"refused">>)
              ELSE Do(n, "mask", 0, [o[n] EXCEPT !.mask = Basis(n)], <<"says">> \o Basis(n))
Radial(n) == \E op \in {"radial", "radials"} : /\ Asked(op)
  /\ LET measured == [o[n] EXCEPT !.ring = IF @ = None THEN <<o[n].tgt>> ELSE @, !.pix = IF @ = None THEN <<o[n].src>> ELSE @]
     IN  IF C.masked
         THEN IF measured.mask = None /\ Blind(n) THEN Do(n, op, 0, measured, <<"refused">>)
              ELSE LET m == IF measured.mask = None THEN Basis(n) ELSE measured.mask
                   IN  Do(n, op, 0, [measured EXCEPT !.mask = m], <<"says", measured.pix[1], measured.ring[1], m[3]>>)
         ELSE Do(n, op, 0, measured, <<"says", measured.pix[1], measured.ring[1], 0>>)
Look(n) == \E op \in {"grid", "rotate", "there", "back"} : Asked(op) /\ Do(n, op, 0, o[n], <<"says", o[n].src, o[n].tgt, 0>>)
Ask(n) == Complete(n) /\ (Remap(n) \/ Mask(n) \/ Radial(n) \/ Look(n))
Next == /\ Len(hist) < C.depth
        /\ \E n \in 1..C.objects : Source(n) \/ Target(n) \/ Clean(n) \/ Bad(n) \/ Weigh(n) \/ Save(n) \/ Put(n) \/ Ask(n)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------------
(* what an object keeps belongs to its latest setups *)
Kept == \A n \in 1..C.objects : LET a == o[n] IN
          /\ a.wt # None => a.wt[1] = a.src /\ (C.tgts = 0 \/ a.wt[2] = a.tgt)
          /\ a.mask # None => a.mask = Basis(n)
          /\ a.ring # None => a.ring[1] = a.tgt
          /\ a.pix # None => a.pix[1] = a.src
(* every answer so far was the answer of the setups in force when it was asked: a replay of the history without any cache *)
RECURSIVE Force(_, _, _)
Force(n, what, m) == IF m = 0 THEN IF C.ready THEN (IF what = "weigh" THEN (IF C.mc THEN 1 ELSE 0) ELSE IF what = "tgt" /\ C.tgts = 0 THEN 0 ELSE 1) ELSE 0
                     ELSE LET h == hist[m] IN
                          IF h[1] # n THEN Force(n, what, m - 1)
                          ELSE IF h[2] = what \/ (what = "weigh" /\ h[2] = "put") THEN h[3]
                          ELSE IF h[2] = "clean" \/ (what = "weigh" /\ h[2] \in {"src", "tgt"}) THEN 0
                          ELSE Force(n, what, m - 1)
True == hist # <<>> => LET m == Len(hist) h == hist[m] IN
          h[4][1] = "says" => /\ h[4][2] = Force(h[1], "src", m)
                              /\ h[4][3] = Force(h[1], "tgt", m)
                              /\ h[4][4] \in {0, Force(h[1], "weigh", m)}
Refusals == hist # <<>> => LET m == Len(hist) h == hist[m] IN
              h[4][1] = "refused" /\ h[2] # "bad" => C.mc /\ Force(h[1], "weigh", m) = 0
(* complete histories are those that end with a question *)
Emit == Len(hist) = C.depth /\ hist[C.depth][4][1] # "-" => PrintT("@@" \o ToJson([i |-> i, hist |-> hist]))
===================================================================================
