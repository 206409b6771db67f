----------------------------- MODULE IngestTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded requests.  A record holds the contents of the   *)
(* source, the request, what was asked of the server and what came back.   *)
(***************************************************************************)
EXTENDS Ingest, Report, Json, IOUtils, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Rtol == "1e-12"

Col(w, got, want) == ChkVec(w, got, want, Rtol, "1e-13")
Unit(w, got, want) ==
  Chk(w \o "units", DOMAIN want \subseteq DOMAIN got /\ \A n \in DOMAIN want \cap DOMAIN got : got[n] = want[n])

(* one rounded to the first decimal *)
Rounded(w, got, want) ==
  IF Len(got) # Len(want) THEN {w \o ": length"}
  ELSE Chk(w, \A i \in 1..Len(got) :
         IF IsNaN(want[i]) THEN IsNaN(got[i])
         ELSE Close(got[i], want[i], 0, "0.0500001") /\ Close(got[i] * 10, Floor((got[i] * 10) + "0.5"), 0, "1e-9"))

Igra(r) ==
  LET q == r.req
      chosen == TLCEval(Selected(r.soundings, q.from, q.to))
      rows == TLCEval(AllLevels(chosen, q.derived))
      n == Len(rows)
      fields == IF q.derived THEN DerivedFields ELSE LevelFields
      heads == IF q.derived THEN DerivedHead ELSE HeadFields
  IN Chk("the wrong file was asked for", Len(r.urls) >= 1 /\ \A i \in 1..Len(r.urls) : r.urls[i] = ArchiveUrl \o FileName(q))
     \cup (IF r.status # 200 THEN Chk("a missing file was not reported", r.exc # "")
     ELSE IF chosen = <<>> THEN Chk("a period without sounding was not reported", r.exc # "")
     ELSE IF r.exc # "" THEN {"ended with " \o r.exc}
     ELSE
       \* the levels
       All(Len(fields), LAMBDA c:
         LET f == fields[c] IN
         IF f[1] = "dewpoint_depression" THEN {}
         ELSE IF f[1] \notin DOMAIN r.body THEN {"column " \o f[1] \o " is missing"}
         ELSE Col("column " \o f[1], r.body[f[1]], Vec(n, LAMBDA i: Value(f[2], rows[i][2][c]))))
       \cup (IF q.derived THEN {}
             ELSE Col("column dewpoint", r.body["dewpoint"], Vec(n, LAMBDA i:
                        LET l == rows[i][2] IN IF Missing(l[8]) \/ Missing(l[11]) THEN "nan" ELSE (l[8] / 10) - (l[11] / 10)))
                  \cup Rounded("column u_wind", r.body["u_wind"], Vec(n, LAMBDA i: Wind("u", rows[i][2])))
                  \cup Rounded("column v_wind", r.body["v_wind"], Vec(n, LAMBDA i: Wind("v", rows[i][2])))
                  \cup Unit("", r.units, IgraUnits))
       \cup Chk("dates of the levels", r.dates = [i \in 1..n |-> SubSeq(Moment(rows[i][1]), 1, 4)])
       \* the headers
       \cup Chk("dates of the soundings", r.hdates = [i \in 1..Len(chosen) |-> SubSeq(Moment(chosen[i]), 1, 4)])
       \cup Chk("station of the soundings", r.hids = [i \in 1..Len(chosen) |-> chosen[i].id])
       \cup All(Len(heads), LAMBDA c:
              LET f == heads[c] IN
              IF f[1] \notin DOMAIN r.head THEN {"header " \o f[1] \o " is missing"}
              ELSE Col("header " \o f[1], r.head[f[1]], Vec(Len(chosen), LAMBDA i: Value(f[2], chosen[i].head[c])))))

Wyoming(r) ==
  LET q == r.req
      rows == SelectSeq(r.levels, Complete)
      want == [region |-> "naconf", TYPE |-> "TEXT:LIST", YEAR |-> q.year, MONTH |-> q.month, FROM |-> q.dayhour, TO |-> q.dayhour, STNM |-> q.id]
  IN Chk("the wrong page was asked for", r.base = "http://weather.uwyo.edu/cgi-bin/sounding" /\ r.query = want)
     \cup (IF r.page # "good" THEN Chk("page '" \o r.page \o "' was not refused", r.exc # "")
     ELSE IF r.exc # "" THEN {"ended with " \o r.exc}
     ELSE All(6, LAMBDA c: Col("column " \o WyomingColumns[c], r.body[WyomingColumns[c]], Vec(Len(rows), LAMBDA i: rows[i][c])))
          \cup All(Len(r.meta), LAMBDA m: Chk("metadata " \o r.meta[m][1], r.meta[m][2] = r.meta[m][3]))
          \cup Unit("", r.units, WyomingUnits))

Stations(r) ==
  Chk("the wrong page was asked for", r.urls = <<"http://weather.uwyo.edu/upperair/" \o r.req.region \o ".html">>)
  \cup (IF r.status # 200 THEN Chk("a failed request was not reported", r.exc # "")
        ELSE IF r.exc # "" THEN {"ended with " \o r.exc}
        ELSE Chk("stations", r.got = r.stations))

Vars == <<"clwc", "ciwc", "crwc", "cswc", "o3", "q">>
EraColumn(r, w, a, b) ==
  LET n == Len(r.levels)
      At(v) == Vec(n, LAMBDA l: r.data[v][l][a][b])
      p == TLCEval(Flipped(r.levels))
      c(v) == TLCEval(Flipped(At(v)))
      tol == IF r.packed THEN "1e-6" ELSE "1e-12"
      Same(name, got, want) == ChkVec(w \o name, got, want, tol, "1e-16")
  IN Same("p", r.out.p, p) \cup Same("t", r.out.t, c("t"))
     \cup Same("rh", r.out.rh, LET x == c("r") IN Vec(n, LAMBDA i: x[i] / 100))
     \cup All(6, LAMBDA v: Same(Vars[v], r.out[Vars[v]], c(Vars[v])))
     \cup ChkVec(w \o "z", r.out.z, EraHeights(p, c("t"), c("q")), "1e-6", "1e-9")
Era(r) ==
  LET nla == Len(r.lats)
      nlo == Len(r.lons)
      diag == ArgMin(Min2(nla, nlo), LAMBDA i: Hav(r.lats[i], r.lons[i], r.lat, r.lon))
      a == Nearest(r.lats, r.lat)
      b == Nearest(r.lons, r.lon)
      rest == Unit("", r.units, EraUnits) \cup Chk("time", \A i \in 1..Len(r.times) : r.times[i] = r.time) \cup Chk("time", Len(r.times) = Len(r.levels))
  IN IF nla # nlo /\ r.exc # "" THEN {"a grid that is not square is refused"}
     ELSE IF r.exc # "" THEN {"ended with " \o r.exc}
     ELSE IF nla = nlo /\ EraColumn(r, "", diag, diag) = {}
     THEN rest \cup (IF a = diag /\ b = diag THEN {} ELSE {"not the nearest grid point but the nearest of the diagonal"})
     ELSE rest \cup EraColumn(r, "", a, b)

\* what is asked of the climate data store
Cds(r) ==
  LET q == r.req
  IN IF r.failed THEN Chk("a refused request was not reported", r.exc # "")
     ELSE IF r.exc # "" THEN {"ended with " \o r.exc}
     ELSE Chk("one request", Len(r.asked) = 1)
          \cup All(Len(r.asked), LAMBDA n:
            LET a == r.asked[n] IN
            Chk("the wrong data set was asked for", a.name = "reanalysis-era5-pressure-levels" /\ a.product = "reanalysis" /\ a.format = "netcdf")
            \cup Chk("another time was asked for", a.year = <<q.year>> /\ a.month = <<q.month>> /\ a.day = <<q.day>> /\ a.hour = <<q.hour>>)
            \cup Chk("another area was asked for", Len(a.area) = 4 /\ LET w == EraArea(q) IN \A i \in 1..4 : Close(a.area[i], w[i], "1e-12", "1e-12"))
            \cup Chk("another grid was asked for", Len(a.grid) = 2 /\ \A i \in 1..2 : Close(a.grid[i], q.resolution, "1e-12", 0))
            \cup Chk("levels asked for", a.levels = EraLevels)
            \cup Chk("variables asked for", {a.variables[i] : i \in 1..Len(a.variables)} = EraVariables)
            \cup Chk("the file returned is not the one asked for", a.returned /\ a.inside))

Failures(r) == CASE r.kind = "igra" -> Igra(r) [] r.kind = "wyoming" -> Wyoming(r) [] r.kind = "stations" -> Stations(r) [] r.kind = "era5" -> Era(r) [] r.kind = "cds" -> Cds(r)

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
