-------------------------------- MODULE Cplx --------------------------------
(* Complex numbers over Num, as records [re, im].                          *)
LOCAL INSTANCE Num

C(a, b) == [re |-> Real(a), im |-> Real(b)]
CAdd(a, b) == [re |-> a.re + b.re, im |-> a.im + b.im]
CSub(a, b) == [re |-> a.re - b.re, im |-> a.im - b.im]
CMul(a, b) == [re |-> a.re * b.re - a.im * b.im, im |-> a.re * b.im + a.im * b.re]
CScale(k, a) == [re |-> k * a.re, im |-> k * a.im]
CConj(a) == [re |-> a.re, im |-> -a.im]
CDiv(a, b) ==
  LET d == b.re * b.re + b.im * b.im
  IN [re |-> (a.re * b.re + a.im * b.im) / d, im |-> (a.im * b.re - a.re * b.im) / d]
CAbs(a) == Sqrt(a.re * a.re + a.im * a.im)

\* principal square root
CSqrt(a) ==
  LET r == CAbs(a)
  IN IF NumEq(r, 0) THEN C(0, 0)
     ELSE IF a.re >= 0
     THEN LET u == Sqrt((r + a.re) / 2) IN [re |-> u, im |-> a.im / (2 * u)]
     ELSE LET v == Sqrt((r - a.re) / 2)
          IN [re |-> Abs(a.im) / (2 * v), im |-> IF a.im < 0 THEN -v ELSE v]

CLn(a) == [re |-> Ln(CAbs(a)), im |-> ATan2(a.im, a.re)]
CExp(a) == CScale(Exp(a.re), [re |-> Cos(a.im), im |-> Sin(a.im)])

(***************************************************************************)
(* Complex error function exp(-z^2) erfc(-iz), z = x + iy, by the rational *)
(* approximation of Hui, Armstrong and Wray (JQSRT 19, 509, 1978).         *)
(***************************************************************************)
HuiA == <<"122.607931777104326", "214.382388694706425", "181.928533092181549",
          "93.155580458138441", "30.180142196210589", "5.912626209773153", "0.564189583562615">>
HuiB == <<"122.607931773875350", "352.730625110963558", "457.334478783897737",
          "348.703917719495792", "170.354001821091472", "53.992906912940207", "10.479857114260399">>

CError(x, y) ==
  LET zh == [re |-> Abs(y), im |-> -x]
      Horner(lead, co, n) == Fold(n, lead, LAMBDA acc, k:
                               LET m == CMul(acc, zh) IN [re |-> m.re + co[n + 1 - k], im |-> m.im])
      w == CDiv(Horner(C(HuiA[7], 0), HuiA, 6), Horner(C(1, 0), HuiB, 7))
  IN IF y >= 0 THEN w
     ELSE CSub(CScale(2, CExp(CScale(-1, CMul(C(x, y), C(x, y))))), w)
=============================================================================
