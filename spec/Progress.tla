--------------------------------- MODULE Progress ---------------------------------
(* A for-loop that reports its progress (property U01), and what is on the screen. *)
EXTENDS Rat, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Lengths == (1..12) \cup {29, 49, 50, 51, 99, 100, 101, 150} \cup (IF Thorough THEN (13..160) \cup {199, 200, 250, 1000} ELSE {})
Refreshes == {1, 7, 50} \cup (IF Thorough THEN {3, 10, 100} ELSE {})
Bars == {1, 10, 50} \cup (IF Thorough THEN {7, 100} ELSE {})
Words(n) == UNION {[1..m -> 0..2] : m \in 0..n}

VARIABLES mode, len, refresh, bar, idx, screen, seen, word
vars == <<mode, len, refresh, bar, idx, screen, seen, word>>
Init == \/ /\ mode = "loop" /\ word = <<>>
           /\ len \in Lengths /\ refresh \in Refreshes /\ bar \in Bars
           /\ idx = 0 /\ screen = <<>> /\ seen = <<>>
        \/ /\ mode = "word" /\ word \in Words(IF Thorough THEN 6 ELSE 5)
           /\ len = 0 /\ refresh = 1 /\ bar = 1 /\ idx = 0 /\ screen = <<>> /\ seen = <<>>

Interval == len \div MinI(refresh, len)
Drawn == (idx + 1) % Interval = 0 \/ idx + 1 = len
Line == [at |-> idx, done |-> (bar * (idx + 1)) \div len, pct |-> (100 * (idx + 1)) \div len, end |-> idx + 1 = len]
Iterate == /\ mode = "loop" /\ idx < len
           /\ screen' = IF Drawn THEN <<Line>> ELSE screen
           /\ seen' = IF Drawn THEN Append(seen, Line) ELSE seen
           /\ idx' = idx + 1 /\ UNCHANGED <<mode, len, refresh, bar, word>>
Next == Iterate
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Sound == screen # <<>> => screen[1].done <= bar /\ screen[1].pct <= 100
(* the loop ends with the full bar *)
Full == (mode = "loop" /\ idx = len) => /\ screen[1].done = bar /\ screen[1].pct = 100 /\ screen[1].end
(* progress never goes back, and there is a new line at least every interval *)
Forward == [][seen' # seen /\ seen # <<>> => LET a == seen[Len(seen)] b == seen'[Len(seen')]
              IN a.done <= b.done /\ a.pct <= b.pct /\ ~a.end /\ b.at - a.at <= Interval]_vars
Monotonic(s) == \A a, b \in 1..Len(s) : a < b => s[a] <= s[b]
Neighbours(s) == \A a \in 1..(Len(s) - 1) : s[a] <= s[a + 1]
SameThing == Monotonic(word) = Neighbours(word)
Emit == /\ (mode = "loop" /\ idx = len) => PrintT("@@" \o ToJson([mode |-> mode, len |-> len, refresh |-> refresh,
                                                                  bar |-> bar, lines |-> seen]))
        /\ mode = "word" => PrintT("@@" \o ToJson([mode |-> mode, word |-> word, mono |-> Monotonic(word)]))
================================================================================
