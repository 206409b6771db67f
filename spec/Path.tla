-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Slant path lengths and integrals along them.  Levels are numbered from  *)
(* 1 (lowest) to n; layer i lies between levels i-1 and i, so ds[1] = 0.   *)
(* Heights z are km above the lowest level.                                *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Sequences
LOCAL INSTANCE Atmos

Deg(a) == (a * Pi) / 180

PlaneParallel(z, angle) ==
  Vec(Len(z), LAMBDA i: IF i = 1 THEN Real(0) ELSE (z[i] - z[i-1]) / Sin(Deg(angle)))

Vertical(z) == Vec(Len(z), LAMBDA i: IF i = 1 THEN Real(0) ELSE z[i] - z[i-1])

NearZenith(angle) == (angle >= 89 /\ angle <= 91) \/ (angle >= -91 /\ angle <= -89)

(* Dutton-Thayer-Westwater ray tracing, Bean & Dutton fig. 3.20.  The      *)
(* state carried from layer to layer: radius, tan(elevation), central      *)
(* angle, bending; ok turns FALSE at a ducting layer, above which path     *)
(* lengths are zero.                                                       *)
(*                                                                         *)
(* As the code has it (own = TRUE) one of the radii is that of the level   *)
(* where Snell's law has that of the lowest one: without refraction the    *)
(* path is then not a straight line, and where the two branches meet a     *)
(* layer can be many times too long.  The tests pin that path.             *)
RayStart(z, angle, z0) ==
  [ok |-> TRUE, rl |-> EarthRadius + z[1] + z0, tanl |-> Tan(Deg(angle)),
   phi |-> Real(0), tau |-> Real(0), ds |-> Real(0)]

RayStep(z, n, angle, z0, own, s, i) ==
  IF i = 1 \/ ~s.ok THEN [s EXCEPT !.ds = Real(0)] ELSE
  LET th0 == Deg(angle)
      rs == EarthRadius + z[1] + z0
      r == EarthRadius + z[i] + z0
      sina == Sin(th0 / 2)
      nbar == IF NumEq(n[i], n[i-1]) \/ NumEq(n[i], 1) \/ NumEq(n[i-1], 1)
              THEN (n[i] + n[i-1]) / 2
              ELSE 1 + (n[i-1] - n[i]) / Ln((n[i-1] - 1) / (n[i] - 1))
      argdth == z[i] / rs - ((n[1] - n[i]) * Cos(th0)) / n[i]
      argth == (2 * sina ^ 2 + argdth) / (2 * r)
  IN IF argth <= 0 THEN [s EXCEPT !.ok = FALSE, !.ds = Real(0)] ELSE
  LET sint == Sqrt((IF own THEN r ELSE rs) * argth)
      th1 == 2 * ASin(sint)
      dend == 2 * (sint + sina) * Cos((th1 + th0) / 4)
      dth == IF th1 - 2 * th0 <= 0
             THEN 4 * ASin((argdth / 2 - z[i] * argth) / dend)
             ELSE th1 - th0
      th == th0 + dth
      tanh == Tan(th)
      dtau == (((1 / tanh + 1 / s.tanl) / 2) * (n[i-1] - n[i])) / nbar
      tau == s.tau + dtau
      phi == dth + tau
      chord == Sqrt((z[i] - z[i-1]) ^ 2 + 4 * r * s.rl * (Sin((phi - s.phi) / 2)) ^ 2)
      bend == Abs(tau - s.tau)
  IN [ok |-> TRUE, rl |-> r, tanl |-> tanh, phi |-> phi, tau |-> tau,
      ds |-> IF NumEq(dtau, 0) THEN chord ELSE chord * (bend / (2 * Sin(bend / 2)))]

RaySteps(z, n, angle, z0, own) ==
  Scan(Len(z), RayStart(z, angle, z0), LAMBDA s, i: RayStep(z, n, angle, z0, own, s, i))

\* <<>> when a refractive index below one makes the path undefined
RayPathOf(z, n, angle, z0, own) ==
  IF \E i \in 1..Len(n) : n[i] < 1 THEN <<>>
  ELSE IF NearZenith(angle) THEN Vertical(z)
  ELSE LET s == RaySteps(z, n, angle, z0, own) IN Vec(Len(z), LAMBDA i: s[i].ds)
RayPath(z, n, angle, z0) == RayPathOf(z, n, angle, z0, FALSE)
RayPathPinned(z, n, angle, z0) == RayPathOf(z, n, angle, z0, TRUE)

Ducts(z, n, angle, z0) ==
  ~NearZenith(angle) /\ ~RaySteps(z, n, angle, z0, TRUE)[Len(z)].ok

(* Mean of x in a layer whose boundary values are a (below) and b (above): *)
(* exponential variation, degenerate cases apart.                          *)
LayerMean(a, b, zeroAsMean) ==
  IF Abs(b - a) < "1e-09" THEN Real(b)
  ELSE IF NumEq(a, 0) \/ NumEq(b, 0)
       THEN IF zeroAsMean THEN (a + b) / 2 ELSE Real(0)
  ELSE (b - a) / Ln(b / a)

LayerIntegrals(x, ds, zeroAsMean) ==
  Vec(Len(x), LAMBDA i: IF i = 1 THEN Real(0) ELSE LayerMean(x[i-1], x[i], zeroAsMean) * ds[i])

PathIntegral(x, ds, zeroAsMean) == Sum(LayerIntegrals(x, ds, zeroAsMean))

(* Cloud amount: trapezoidal integral over the levels of each cloud, in cm *)
CloudAmount(den, ds, base, top) ==
  SumN(Len(base), LAMBDA c:
    SumN(top[c] - base[c], LAMBDA k:
      LET j == base[c] + k IN (ds[j] * (den[j] + den[j-1])) / 2)) / 10
=============================================================================
