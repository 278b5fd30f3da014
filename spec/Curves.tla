------------------------------- MODULE Curves -------------------------------
(* Survival curves.  The baseline hazard is the Nelson-Aalen estimate of the  *)
(* training data: a history of distinct times, each with the number of events *)
(* and of instances that leave the risk set.  A leaf with value theta has     *)
(* cumulative hazard theta * H(t) and survival function exp(-theta * H(t)).   *)
(* Before the first event H is 1 / (n + 1).                                   *)
EXTENDS Judge

Rnd(a, b) == (2 * a + b) \div (2 * b)

(* H at the times of the history, in units of 1/100000 *)
Fives == 100000
RECURSIVE Hazards(_, _, _, _)
Hazards(hist, at, sum, first) ==
  IF hist = <<>> THEN <<>>
  ELSE LET h == Head(hist)
           s == sum + Rnd(Fives * h.died, at)
       IN <<IF s = 0 THEN first ELSE s>> \o Hazards(Tail(hist), at - h.gone, s, first)
RECURSIVE Leaving(_)
Leaving(hist) == IF hist = <<>> THEN 0 ELSE Head(hist).gone + Leaving(Tail(hist))
Baseline(hist) == The({Hazards(hist, n, 0, Rnd(Fives, n + 1)) : n \in {Leaving(hist)}})

(* theta in units of 1/10000; the result in units of 1/1000000 *)
CumHazard(theta, H) == (theta \div 1000) * H + ((theta % 1000) * H) \div 1000

(* 30000 * exp(-x), x in units of 1/10000 *)
Decay == <<29997, 29994, 29988, 29976, 29952, 29904, 29809, 29618, 29242, 28503, 27080, 24444, 19917, 13224, 5829, 1132, 43, 0>>
RECURSIVE Exp(_, _, _)
Exp(x, k, v) == IF x = 0 \/ v = 0 THEN v
                ELSE IF k > Len(Decay) THEN 0
                ELSE Exp(x \div 2, k + 1, IF x % 2 = 1 THEN Rnd(v * Decay[k], 30000) ELSE v)
Survives(c) == Exp(Rnd(c, 100), 1, 30000)

(* what 5 digits of the hazard and 4 of theta leave open, in units of 1/1000000 *)
Slack(theta, m) == 600 + (theta * m) \div 1000
Bounded(theta) == theta \in 0..2000000

(* --- one recorded call: curves of the rows xs at the times of the training  *)
(* data; hazards in units of 1/100000, probabilities in units of 1/30000      *)
CurvesOK(t, e) ==
  LET m == Len(e.hist)
  IN /\ e.times = [j \in 1..m |-> e.hist[j].t]
     /\ Len(e.out) = Len(e.xs)
     /\ \A H \in {Baseline(e.hist)} : \A i \in 1..Len(e.xs) :
          \A th \in {Route(t, e.xs[i])} : Bounded(th) =>
            /\ Len(e.out[i]) = m
            /\ \A j \in 1..m : \A c \in {CumHazard(th, H[j])} :
                 IF e.kind = "hazard" THEN Abs(10 * e.out[i][j] - c) <= Slack(th, m) + c \div 5000
                 ELSE Abs(e.out[i][j] - Survives(c)) <= 60 + Rnd(Slack(th, m) * 3, 100)
=============================================================================
