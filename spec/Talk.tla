---------------------------------- MODULE Talk ----------------------------------
(* Calls that report their progress (property U02).  A call told to be quiet writes
   nothing.  A call told to talk draws one or more bars over each other's last state: every
   bar only grows, ends full, and is closed by a new line, so that the next call starts on
   a line of its own.  What a call answers does not depend on whether it talks. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)       \* per object: its calls, each with the rows of its bars (<<>>: none)
Depth == 3
VARIABLES i, hist, now, bar, row, screen
vars == <<i, hist, now, bar, row, screen>>
C == Given[i]
Idle == now = 0
(* screen: shares of the open line, and how many lines are closed *)
Init == i \in 1..Len(Given) /\ hist = <<>> /\ now = 0 /\ bar = 0 /\ row = 0 /\ screen = [open |-> <<>>, closed |-> 0]
Hows == {"quiet", "loud", "default"}
Talks(how, k) == how = "loud" \/ (how = "default" /\ C[k].talks)
Begin == /\ Idle /\ Len(hist) < Depth
         /\ \E k \in 1..Len(C), how \in Hows :
              /\ hist' = Append(hist, [k |-> k, how |-> how, bars |-> IF Talks(how, k) THEN Len(C[k].rows) ELSE 0,
                                       silent |-> ~Talks(how, k)])
              /\ IF Talks(how, k) /\ C[k].rows # <<>> THEN now' = k /\ bar' = 1 ELSE now' = 0 /\ bar' = 0
         /\ row' = 0 /\ UNCHANGED <<i, screen>>
Draw == /\ ~Idle
        /\ LET n == C[now].rows[bar]
               line == Append(screen.open, (100*(row + 1)) \div n)
           IN  IF row + 1 < n THEN screen' = [screen EXCEPT !.open = line] /\ row' = row + 1 /\ UNCHANGED <<now, bar>>
               ELSE /\ screen' = [open |-> <<>>, closed |-> screen.closed + 1] /\ row' = 0
                    /\ IF bar < Len(C[now].rows) THEN bar' = bar + 1 /\ UNCHANGED now ELSE bar' = 0 /\ now' = 0
        /\ UNCHANGED <<i, hist>>
Next == Begin \/ Draw
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------------
RECURSIVE Bars(_)
Bars(h) == IF h = <<>> THEN 0 ELSE h[1].bars + Bars(Tail(h))
(* between calls no line is open, and every bar that was asked for has been closed *)
Closed == Idle => screen.open = <<>> /\ screen.closed = Bars(hist)
Grows == \A a, b \in 1..Len(screen.open) : a < b => screen.open[a] <= screen.open[b]
Silent == hist # <<>> /\ hist[Len(hist)].silent => Idle
Emit == Idle /\ Len(hist) = Depth => PrintT("@@" \o ToJson([i |-> i, hist |-> hist]))
=================================================================================
