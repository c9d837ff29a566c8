-------------------------------- MODULE Swan --------------------------------
(* Waves computed nearshore (by SWAN) as wave conditions for the model:      *)
(* power and direction from the transport of energy, and the wave height     *)
(* the waves had in deep water, undoing refraction and shoaling.             *)
EXTENDS Arr
Rad(a) == a * (Pi / 180)
Turn(a) == a - (2 * Pi * Floor(a / (2 * Pi)))           \* within 0 .. 2 pi
Bearing(a) == a - (360 * Floor(a / 360))                \* within 0 .. 360
Sinh(a) == (Exp(a) - Exp(-a)) / 2
\* from the seaward direction of the coast, -90 .. 270 degrees; waves go onshore within 90 degrees either way
Angle(dir, norm) == Turn((Rad(norm) - Rad(dir)) + (Pi / 2)) - (Pi / 2)
Onshore(a) == RAbs(a) < Pi / 2
KD(d, len) == (2 * Pi) * (d / len)
\* speed of the energy by the speed of the waves: 1/2 in deep water, 1 in shallow water
Ratio(kd) == (1 + ((2 * kd) / Sinh(2 * kd))) / 2
\* length (and speed) in deep water by that here
Longer(kd) == 1 / Tanh(kd)
\* angle in deep water (Snell)
SeaAngle(a, kd) == Asin(RMax(RMin(Longer(kd) * Sin(a), 1), -1))
Turnable(a, kd) == RAbs(Longer(kd) * Sin(a)) <= 999/1000
\* height in deep water: the energy between two rays is the same
SeaHeight(h, a, kd) == h / Sqrt((Longer(kd) / (2 * Ratio(kd))) * (Cos(SeaAngle(a, kd)) / Cos(a)))
Offshore(w, norm) == LET a == Angle(w.dir, norm) IN IF Onshore(a) THEN SeaHeight(w.hs, a, KD(w.depth, w.len)) ELSE 0
Power(w) == (1025 * (981/100)) * Sqrt((w.xt ^ 2) + (w.yt ^ 2))
\* the bearing the energy comes from
From(w) == Bearing((Atan2(w.xt, w.yt) * (180 / Pi)) + 180)
=============================================================================
