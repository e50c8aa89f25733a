------------------------------------ MODULE Pure ------------------------------------
(* Calls without memory (property N01).  The heap has the caller's arrays, the results it
   was given and the library's own (defaults, constants, caches).  The library reads the
   arrays of a call and writes a new result; the caller overwrites every array it holds
   between calls.  A cell holds the call it belongs to, or Junk once it is overwritten.
   Every history of questions, each with its arrays laid out in some way, is a state. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)      \* calls: how many questions there are; layouts: ways to lay an array out
VARIABLES i, caller, results, library, hist, phase
vars == <<i, caller, results, library, hist, phase>>
C == Given[i]
Junk == -1
Init == i \in 1..Len(Given) /\ caller = 0 /\ results = <<>> /\ library = 0 /\ hist = <<>> /\ phase = "free"
-------------------------------------------------------------------------------------
(* the caller prepares the arrays of a question *)
Prepare == /\ phase = "free" /\ Len(hist) < C.depth
           /\ \E k \in 1..C.calls, l \in 1..C.layouts :
                caller' = k /\ phase' = "ready" /\ hist' = Append(hist, <<k, l, 0>>)
           /\ UNCHANGED <<i, results, library>>
(* the answer is made from these arrays alone, in new memory *)
Answer == caller + library
Ask == /\ phase = "ready" /\ phase' = "answered"
       /\ results' = Append(results, Answer)
       /\ hist' = [hist EXCEPT ![Len(hist)][3] = Answer]
       /\ UNCHANGED <<i, caller, library>>
(* the caller overwrites what it passed and what it got *)
Spoil == /\ phase = "answered" /\ phase' = "free"
         /\ caller' = Junk /\ results' = [n \in 1..Len(results) |-> Junk]
         /\ UNCHANGED <<i, library, hist>>
Next == Prepare \/ Ask \/ Spoil
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------------
(* a call leaves its arrays alone; the library's memory never changes; equal questions have equal answers *)
Untouched == phase = "answered" => caller = hist[Len(hist)][1]
Constant == library = 0
Same == \A a, b \in 1..Len(hist) : hist[a][1] = hist[b][1] /\ hist[a][3] # 0 /\ hist[b][3] # 0 => hist[a][3] = hist[b][3]
Emit == phase = "free" /\ Len(hist) = C.depth => PrintT("@@" \o ToJson([i |-> i, hist |-> hist]))
=====================================================================================
