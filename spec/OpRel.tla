------------------------------- MODULE OpRel --------------------------------
(* Single operations on Gaussian integers by their defining relations.  A     *)
(* result y is given as the Gaussian integer 3600*y (inf = 1: infinite;       *)
(* inf = 2: not of that form, which no defined result below is).              *)
EXTENDS TraceBase
VARIABLES tid, l, err
vars == <<tid, l, err>>
S == 3600
CMul(a, b) == [re |-> a.re * b.re - a.im * b.im, im |-> a.re * b.im + a.im * b.re]
Is(y, re, im) == y.inf = 0 /\ y.re = re * S /\ y.im = im * S
Zero(a) == a.re = 0 /\ a.im = 0
(* scaled equality: y * b = a where y is scaled by S *)
Quot(y, a, b) == LET p == CMul([re |-> y.re, im |-> y.im], b)
                 IN y.inf = 0 /\ p.re = a.re * S /\ p.im = a.im * S
Principal(y) == y.re > 0 \/ (y.re = 0 /\ y.im >= 0)
(* y = q/S exactly with small denominators, so y*y = x is checked on q*q/S^2;
   divide first: q = c * (S / d) for d | 3600, found by the driver's scaling   *)
Unscale(y, d) == [re |-> (y.re * d) \div S, im |-> (y.im * d) \div S]
Dens == {1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 25, 30, 36, 40, 45, 50}
Den(y) == CHOOSE d \in Dens : (y.re * d) % S = 0 /\ (y.im * d) % S = 0
HasDen(y) == \E d \in Dens : (y.re * d) % S = 0 /\ (y.im * d) % S = 0

OK(e) ==
  LET a == e.a[1]  y == e.y
  IN CASE e.k = "conj" -> Is(y, a.re, -a.im)
       [] e.k = "neg"  -> Is(y, -a.re, -a.im)
       [] e.k = "imul" -> Is(y, -a.im, a.re)
       [] e.k = "mul"  -> LET p == CMul(a, e.a[2]) IN Is(y, p.re, p.im)
       [] e.k = "min"  -> Is(y, IF a.re < e.a[2].re THEN a.re ELSE e.a[2].re, 0)
       [] e.k = "max"  -> Is(y, IF a.re > e.a[2].re THEN a.re ELSE e.a[2].re, 0)
       [] e.k = "abs"  -> /\ y.inf = 0 /\ y.im = 0 /\ y.re >= 0 /\ y.re % S = 0
                          /\ (y.re \div S) * (y.re \div S) = a.re * a.re + a.im * a.im
       [] e.k = "sqrt" -> /\ y.inf = 0 /\ Principal(y) /\ y.re % S = 0 /\ y.im % S = 0
                          /\ LET z == Unscale(y, 1) IN CMul(z, z) = a
       [] e.k = "div"  -> IF Zero(e.a[2]) THEN y.inf = 1 ELSE Quot(y, a, e.a[2])
       [] e.k = "rec"  -> IF Zero(a) THEN y.inf = 1 ELSE Quot(y, [re |-> 1, im |-> 0], a)
       [] e.k = "recsqrt" ->
            IF Zero(a) THEN y.inf = 1
            ELSE /\ y.inf = 0 /\ Principal(y) /\ HasDen(y)
                 /\ LET d == Den(y)  z == Unscale(y, d)
                    IN CMul(CMul(z, z), a) = [re |-> d * d, im |-> 0]

TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid
  /\ LET e == Traces[tid].steps[l']
     IN err' = IF ~OK(e) THEN e.k \o ": wrong result"
               ELSE IF ~e.same THEN e.k \o ": evaluate_output differs" ELSE ""
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
