--------------------------------- MODULE Stream ---------------------------------
(* One random stream (property R06).  The library draws from NumPy's global generator and
   from nothing else: the generator is where its seed and the draws since have put it.  Every
   answer is named by the question and the place of the stream it was asked at; equal names
   mean equal answers, and the same question at another place has another answer.  Questions
   that are not random leave the stream where it is. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)     \* draws, plains: how many questions; seeds; depth
VARIABLES i, stream, hist
vars == <<i, stream, hist>>
C == Given[i]
(* the place of the stream: the seed and the draws since *)
Init == i \in 1..Len(Given) /\ stream = [seed |-> 0, drawn |-> <<>>] /\ hist = <<>>
Room == Len(hist) < C.depth
Note(x) == hist' = Append(hist, x)
Seed == /\ Room /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].what # "seed")
        /\ \E k \in 1..C.seeds : stream' = [seed |-> k, drawn |-> <<>>] /\ Note([what |-> "seed", k |-> k, at |-> stream'])
        /\ UNCHANGED i
Draw == /\ Room /\ stream.seed # 0
        /\ \E k \in 1..C.draws : stream' = [stream EXCEPT !.drawn = Append(@, k)] /\ Note([what |-> "draw", k |-> k, at |-> stream'])
        /\ UNCHANGED i
Plain == /\ Room /\ stream.seed # 0
         /\ \E k \in 1..C.plains : Note([what |-> "plain", k |-> k, at |-> stream])
         /\ UNCHANGED <<i, stream>>
Next == Seed \/ Draw \/ Plain
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------------
(* the stream never goes back, except to a seed *)
Forward == [][hist' # hist /\ hist'[Len(hist')].what # "seed" => stream'.seed = stream.seed /\ SubSeq(stream'.drawn, 1, Len(stream.drawn)) = stream.drawn]_vars
Placed == \A n \in 1..Len(hist) : hist[n].what = "draw" => hist[n].at.drawn[Len(hist[n].at.drawn)] = hist[n].k
Emit == ~Room => PrintT("@@" \o ToJson([i |-> i, hist |-> hist]))
=================================================================================
