----------------------------- MODULE ClimTrace -----------------------------
(***************************************************************************)
(* Conformance of histories of climatology calls.  The state of a history  *)
(* is the reference grid of its ProfileExtrapolation object; every other   *)
(* answer depends on the arguments of the call only.                       *)
(***************************************************************************)
EXTENDS Climate, Num, Report, Sequences, TLC, Json, IOUtils, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tables == TLCEval(JsonDeserialize(IOEnv.VERIF_DIR \o "/data/climate.json"))
Group == TLCEval(IOEnv.GROUP)         \* which property's clauses

AtmNames == <<"Tropical", "Midlatitude Summer", "Midlatitude Winter", "Subarctic Summer", "Subarctic Winter", "US Standard">>
\* identifiers: main gases are columns of the atmospheres, then minor, then trace
MainGases == <<"H2O", "CO2", "O3", "N2O", "CO", "CH4", "O2">>
MinorGases == <<"NO", "SO2", "NO2", "NH3", "HNO3", "OH", "HF", "HCL", "HBR", "HI", "CLO", "OCS", "H2CO", "HOCL", "N2", "HCN",
                "CH3CL", "H2O2", "C2H2", "C2H6", "PH3">>
TraceGases == <<"COF2", "SF6", "H2S", "CCL3F", "CCL2F2", "CCLF3", "CF4", "CHCl2F", "CHCLF2", "C2CL3F3", "C2CL2F4", "C2CLF5",
                "CCL4", "CLONO2", "N2O5", "HNO4">>
Gases == MainGases \o MinorGases \o TraceGases

DefaultGrid == Vec(26, LAMBDA i: Real(i - 1)) \o Vec(10, LAMBDA i: "27.5" + ("2.5" * (i - 1))) \o Vec(10, LAMBDA i: Real(50 + (5 * i)))

Rising(s) == \A i \in 2..Len(s) : s[i] > s[i-1]
Falling(s) == \A i \in 2..Len(s) : s[i] < s[i-1]
Last(s) == s[Len(s)]
MaxOf(s) == Fold(Len(s), s[1], LAMBDA acc, i: Max2(acc, s[i]))

(* tables (C18) *)
GlAtm(c) ==
  IF c.id < 0 \/ c.id > 5 THEN Chk("gl_atm(" \o ToString(c.id) \o ") was not refused", c.exc # "")
  ELSE IF c.exc # "" THEN {"gl_atm: ended with " \o c.exc}
  ELSE LET w == "gl_atm " \o AtmNames[c.id + 1] \o " "
           t == Tables.atm[c.id + 1]
           want == <<t[1], t[2], t[3], t[4]>> \o Vec(7, LAMBDA g: t[4 + g])
       IN Chk(w \o "columns", Len(c.out) = 11)
          \cup All(IF Len(c.out) = 11 THEN 11 ELSE 0, LAMBDA n: ChkVec(w \o "column " \o ToString(n), c.out[n], want[n], 0, 0))
          \cup (IF Len(c.out) = 11
                THEN Chk(w \o "heights not rising", Rising(c.out[1])) \cup Chk(w \o "pressure not falling", Falling(c.out[2])) ELSE {})
Gas(c, names, tab, first) ==
  LET n == (c.id - first) + 1 IN
  IF n < 1 \/ n > Len(names) THEN Chk(c.op \o "(" \o ToString(c.id) \o ") was not refused", c.exc # "")
  ELSE IF c.exc # "" THEN {c.op \o ": ended with " \o c.exc}
  ELSE ChkVec(c.op \o " " \o names[n], c.out[1], tab[n], 0, 0)
Names(c) ==
  Chk("atm_profiles", c.list = [n \in 1..6 |-> <<n - 1, AtmNames[n]>>])
  \cup Chk("gas identifiers", c.ids = [n \in 1..Len(Gases) |-> <<Gases[n], n - 1>>] \o <<<<"AIR", 99>>>>)

(* reference atmospheres (C19) *)
Quantity(q, a, h) == CASE q = "temperature" -> RefT(a, h) [] q = "pressure" -> RefP(a, h) [] q = "water_vapour_density" -> RefRho(a, h)
Standard(q, h) == CASE q = "standard_temperature" -> StdT(h) [] q = "standard_pressure" -> StdP(h)
                    [] q = "standard_water_vapour_density" -> StdRho(h) [] q = "standard_water_vapour_pressure" -> StdE(h)
Ref(c) ==
  LET w == c.q \o " lat " \o NumStr(c.lat) \o " " \o c.season IN
  IF c.season \notin {"summer", "winter"} THEN Chk(w \o ": was not refused", c.exc # "")
  ELSE IF c.exc # "" THEN {w \o ": ended with " \o c.exc}
  ELSE ChkVec(w, c.out[1], Vec(Len(c.h), LAMBDA i: Quantity(c.q, Atm(c.lat, c.season), c.h[i])), "1e-10", "1e-290")
Std(c) ==
  IF c.exc # "" THEN {c.q \o ": ended with " \o c.exc}
  ELSE ChkVec(c.q, c.out[1], Vec(Len(c.h), LAMBDA i: Standard(c.q, c.h[i])), "1e-10", "1e-290")

(* extrapolation (C20) *)
Part(s, a, b) == Vec((b - a) + 1, LAMBDA i: s[(a + i) - 1])
(* the levels added above the measurement are those of the reference atmosphere of *)
(* the latitude and month (C19: season of a month, C20: values of the levels)      *)
Above(c) ==
  LET n == Len(c.z) w == "extrapolation " IN
  IF c.exc # "" THEN {w \o "ended with " \o c.exc}
  ELSE LET z == c.out[1] m == Len(z) IN
       IF m < n \/ \E q \in 2..4 : Len(c.out[q]) # m THEN {w \o "lengths"}
       ELSE ChkVec(w \o "pressure above", Part(c.out[2], n + 1, m),
                      Vec(m - n, LAMBDA i: ExtP(c.lat, c.month, z[n + i])), "1e-10", "1e-290")
          \cup ChkVec(w \o "temperature above", Part(c.out[3], n + 1, m),
                      Vec(m - n, LAMBDA i: ExtT(c.lat, c.month, z[n + i])), "1e-10", 0)
          \cup ChkVec(w \o "humidity above", Part(c.out[4], n + 1, m),
                      Vec(m - n, LAMBDA i: ExtRh(c.lat, c.month, z[n + i])), "1e-9", "1e-290")
Ext(c, grid) ==
  LET n == Len(c.z)
      w == "extrapolation "
  IN IF c.exc # "" THEN {w \o "ended with " \o c.exc}
     ELSE LET z == c.out[1] m == Len(z) IN
     IF m < n \/ \E q \in 2..4 : Len(c.out[q]) # m THEN {w \o "lengths"}
     ELSE Chk(w \o "measured heights", FirstFar(Part(z, 1, n), c.z, 0, 0) = 0)
          \cup Chk(w \o "measured pressures", FirstFar(Part(c.out[2], 1, n), c.p, 0, 0) = 0)
          \cup Chk(w \o "measured temperatures", FirstFar(Part(c.out[3], 1, n), c.t, 0, 0) = 0)
          \cup Chk(w \o "measured humidities", FirstFar(Part(c.out[4], 1, n), c.rh, 0, 0) = 0)
          \cup Chk(w \o "heights do not rise", Rising(z))
          \cup Chk(w \o "does not reach the top of the reference grid", NumEq(Last(z), Max2(MaxOf(grid), Last(c.z))) \/ Last(z) > MaxOf(grid))
          \cup Chk(w \o "gap above the measurement",
                   c.custom \/ \A i \in (n + 1)..m : z[i] - z[i-1] =< "5.0000001")
          \cup Above(c)
StepGrid(grid, c) == CASE c.op = "newobj" -> DefaultGrid [] c.op = "height" /\ c.exc = "" -> c.h [] OTHER -> grid

Of == [C02 |-> {}, C18 |-> {"gl_atm", "gl_atm_minor", "gl_atm_trace", "names"}, C19 |-> {"ref", "std", "extrapolate"}, C20 |-> {"extrapolate"}]
Call(c, grid) ==
  Chk(c.op \o ": arguments changed", c.kept)
  \cup (IF c.op \notin Of[Group] THEN {} ELSE
        CASE c.op = "gl_atm" -> GlAtm(c)
          [] c.op = "gl_atm_minor" -> Gas(c, MinorGases, Tables.minor, 7)
          [] c.op = "gl_atm_trace" -> Gas(c, TraceGases, Tables.trace, 28)
          [] c.op = "names" -> Names(c)
          [] c.op = "ref" -> Ref(c)
          [] c.op = "std" -> Std(c)
          [] c.op = "extrapolate" -> IF Group = "C19" THEN Above(c) ELSE Ext(c, grid))
  \cup (IF Group = "C02" THEN {}
        ELSE IF c.op \in {"badgrid", "badmode"} THEN Chk(c.op \o ": was not refused", c.exc # "")
        ELSE IF c.op \in {"height", "newobj", "grid"} THEN Chk(c.op \o ": ended with " \o c.exc, c.exc = "") ELSE {})
  \cup (IF c.op = "grid" /\ Group # "C02" THEN ChkVec("the object's grid", c.out[1], grid, 0, 0) ELSE {})

RECURSIVE Walk(_, _, _)
Walk(r, n, grid) ==
  IF n > Len(r.calls) THEN {}
  ELSE LET f == TLCEval(Call(r.calls[n], grid))
       IN IF f # {} THEN {"call " \o ToString(n) \o ": " \o x : x \in f}
          ELSE Walk(r, n + 1, TLCEval(StepGrid(grid, r.calls[n])))

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Walk(Trace[k], 1, DefaultGrid)
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
