----------------------------- MODULE PathDesign -----------------------------
(***************************************************************************)
(* The specified paths and layer means by themselves (C06, C07): layers    *)
(* are put on top of each other over stations of different heights.        *)
(***************************************************************************)
EXTENDS Path, Num, Sequences, TLC, IOUtils
LOCAL INSTANCE Atmos
VARIABLES z, n, x, angle, z0

Levels == atoi(IOEnv.LEVELS)
DInit == /\ angle \in {12, 30, 60, 88, 90}
         /\ z0 \in {Real(0), Real("2.5")}
         /\ z = <<Real(0)>>
         /\ n \in {<<Real(1)>>, <<Real("1.0003")>>}
         /\ x \in {<<Real(0)>>, <<Real("2.5")>>}
DNext == /\ Len(z) < Levels
         /\ \E d \in {"0.05", "1", "8"}, f \in {"0", "0.4", "1"}, y \in {"0", "2.5", "0.3"} :
              /\ z' = Append(z, z[Len(z)] + d)
              /\ n' = Append(n, 1 + (n[Len(n)] - 1) * f)
              /\ x' = Append(x, Real(y))
         /\ UNCHANGED <<angle, z0>>

M == Len(z)
ds == RayPath(z, n, angle, z0)
pp == PlaneParallel(z, angle)
Refracts == \E i \in 2..M : ~NumEq(n[i], n[i-1])
(* no layer path is shorter than the layer is thick, nor, while rays bend  *)
(* less than the Earth, longer than without curvature                      *)
Weak == \A i \in 2..M : (n[i-1] - n[i]) / (z[i] - z[i-1]) < "0.000157"
Between == ~Ducts(z, n, angle, z0) =>
             \A i \in 2..M : ds[i] >= (z[i] - z[i-1]) * (1 - Real("1e-9")) /\ (Weak => ds[i] <= pp[i] * (1 + Real("1e-9")))
\* without refraction the ray is a straight line over a sphere
Straight(i) == LET r == EarthRadius + z0 + z[i]
                   rs == EarthRadius + z0
                   c == rs * Cos(Deg(angle))
               IN Sqrt((r * r) - (c * c)) - (rs * Sin(Deg(angle)))
Unbent == (~Refracts /\ ~NearZenith(angle)) => \A i \in 2..M : Close(ds[i], Straight(i) - Straight(i - 1), "1e-8", "1e-9")
\* overhead both geometries agree
Overhead == NearZenith(angle) => \A i \in 2..M : Close(ds[i], pp[i], "1e-12", 0)
\* a layer mean lies between the boundary values, equal ones give themselves, and scales with them
Means == \A i \in 2..M : \A flag \in BOOLEAN :
           LET a == x[i-1] b == x[i] m == LayerMean(a, b, flag) IN
           /\ m <= Max2(a, b) /\ (m >= Min2(a, b) \/ ~flag)
           /\ Close(LayerMean(7 * a, 7 * b, flag), 7 * m, "1e-12", 0)
           /\ Close(LayerMean(b, a, flag), m, "1e-12", 0)
\* the integral is additive over layers and never negative
Additive == Close(PathIntegral(x, pp, TRUE), SumN(M, LAMBDA i: LayerIntegrals(x, pp, TRUE)[i]), "1e-12", 0) /\ PathIntegral(x, pp, TRUE) >= 0
=============================================================================
