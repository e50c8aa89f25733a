---------------------------------- MODULE FixThm ----------------------------------
(* The fixed-point directions obey the laws of trigonometry within their error bounds. *)
EXTENDS Fix, TLC
VARIABLES a, b
vars == <<a, b>>
Init == a \in 0..T /\ b \in {0, 1, 17, 90, 180, 244, 360, 431, 720, 999, 1080, 1300}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------------
Near(x, y, e) == FAbs(x - y) <= e
Anchors == SinTab[1] = 0 /\ SinTab[121] = 15000 /\ SinTab[361] = S
Length == Near(FSin(a) * FSin(a) + FCos(a) * FCos(a), S * S, 2 * S)
AddSin == Near(FSin(a + b), Dv(FSin(a) * FCos(b) + FCos(a) * FSin(b), S), 2)
AddCos == Near(FCos(a + b), Dv(FCos(a) * FCos(b) - FSin(a) * FSin(b), S), 2)
Rises == a < 360 => FSin(a) <= FSin(a + 1) /\ (FSin(a + 1) - FSin(a)) * 1000 <= 130900 + 1000
Between == LET m == a * Mu + 500 IN Near(2 * FSinMu(m), FSin(a) + FSin(a + 1), 3)
Colat == b <= 720
V == Vec(a, b)
Unit == Colat => LET n == (V[1] * V[1] + V[2] * V[2] + V[3] * V[3]) \div S IN Near(n, S, 6)
Lon == Colat /\ FSin(b) > 2000 =>
         LET d == (LonMu(V) - a * Mu) % (T * Mu) IN
         LET e == IF d > 720 * Mu THEN T * Mu - d ELSE d IN e * (FSin(b) \div 100) <= 3 * (RadMu \div 100)
NearV(u, w, e) == \A k \in 1..3 : Near(u[k], w[k], e)
TurnZ == Colat => NearV(RotZ(V, 77), Vec(a + 77, b), 4)
TurnY == Colat => NearV(RotY(Vec(0, b), 55), IF b + 55 <= 720 THEN Vec(0, b + 55) ELSE Vec(720, 1440 - b - 55), 4)
TurnX == NearV(RotX(<<0, FCos(b), FSin(b)>>, a), <<0, FCos(a + b), FSin(a + b)>>, 4)
===================================================================================
