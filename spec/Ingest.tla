-------------------------------- MODULE Ingest --------------------------------
(***************************************************************************)
(* Radiosonde archives and reanalysis columns: what a request must return  *)
(* for given contents of the source (C21, C22, C23).                       *)
(***************************************************************************)
EXTENDS Num, Sequences, TLC
LOCAL INSTANCE Units

(* ------------------------------ IGRA v2 --------------------------------- *)
(* A sounding is [id, time |-> <<year, month, day, hour>>, head, levels];   *)
(* hour 99 counts as midnight.  Fields are the integers of the archive.     *)
Hour(h) == IF h = 99 THEN 0 ELSE h
Moment(s) == <<s.time[1], s.time[2], s.time[3], Hour(s.time[4]), 0>>
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN TRUE    \* a <= b, lexicographically
                ELSE IF a[1] < b[1] THEN TRUE ELSE IF b[1] < a[1] THEN FALSE ELSE Before(Tail(a), Tail(b))
InPeriod(s, from, to) == Before(from, Moment(s)) /\ Before(Moment(s), to)
Selected(soundings, from, to) == SelectSeq(soundings, LAMBDA s: InPeriod(s, from, to))

\* kinds of field: iN scaled integer (value / 10^N), flag, secs (MMMSS), clock (HHMM), deg4, text
Missing(v) == v \in {-9999, -8888, -99999}
Value(kind, v) ==
  CASE kind = "i0" -> IF Missing(v) THEN "nan" ELSE v
    [] kind = "i1" -> IF Missing(v) THEN "nan" ELSE v / 10
    [] kind = "i2" -> IF Missing(v) THEN "nan" ELSE v / 100
    [] kind = "i3" -> IF Missing(v) THEN "nan" ELSE v / 1000
    [] kind = "secs"  -> IF v < 0 THEN "nan" ELSE ((v \div 100) * 60) + (v % 100)
    [] kind = "clock" -> IF v = 9999 THEN "nan" ELSE ((v \div 100) * 3600) + ((v % 100) * 60)
    [] kind = "deg4"  -> v / 10000
    [] kind = "raw"   -> v
    [] kind = "flag"  -> IF v = "A" THEN 1 ELSE IF v = "B" THEN 2 ELSE 0

LevelFields == << <<"lvltyp1", "raw">>, <<"lvltyp2", "raw">>, <<"etime", "secs">>, <<"pressure", "i2">>, <<"pflag", "flag">>,
                  <<"height", "i0">>, <<"zflag", "flag">>, <<"temperature", "i1">>, <<"tflag", "flag">>,
                  <<"relative_humidity", "i1">>, <<"dewpoint_depression", "i1">>, <<"direction", "i0">>, <<"speed", "i1">> >>
LevelCol == [lvltyp1 |-> 1, lvltyp2 |-> 2, etime |-> 3, pressure |-> 4, pflag |-> 5, height |-> 6, zflag |-> 7, temperature |-> 8,
             tflag |-> 9, relative_humidity |-> 10, dewpoint_depression |-> 11, direction |-> 12, speed |-> 13]
HeadFields == << <<"year", "raw">>, <<"month", "raw">>, <<"day", "raw">>, <<"hour", "raw">>, <<"release_time", "clock">>,
                 <<"number_levels", "raw">>, <<"latitude", "deg4">>, <<"longitude", "deg4">> >>
DerivedFields ==
  << <<"pressure", "i2">>, <<"reported_height", "i0">>, <<"calculated_height", "i0">>, <<"temperature", "i1">>, <<"temperature_gradient", "i1">>,
     <<"potential_temperature", "i1">>, <<"potential_temperature_gradient", "i1">>, <<"virtual_temperature", "i1">>,
     <<"virtual_potential_temperature", "i1">>, <<"vapor_pressure", "i3">>, <<"saturation_vapor_pressure", "i3">>,
     <<"reported_relative_humidity", "i1">>, <<"calculated_relative_humidity", "i1">>, <<"relative_humidity_gradient", "i1">>,
     <<"u_wind", "i1">>, <<"u_wind_gradient", "i1">>, <<"v_wind", "i1">>, <<"v_wind_gradient", "i1">>, <<"refractive_index", "i0">> >>
DerivedHead ==
  << <<"year", "raw">>, <<"month", "raw">>, <<"day", "raw">>, <<"hour", "raw">>, <<"release_time", "clock">>, <<"number_levels", "raw">>,
     <<"precipitable_water", "i2">>, <<"inv_pressure", "i2">>, <<"inv_height", "i0">>, <<"inv_strength", "i1">>,
     <<"mixed_layer_pressure", "i2">>, <<"mixed_layer_height", "i0">>, <<"freezing_point_pressure", "i2">>, <<"freezing_point_height", "i0">>,
     <<"lcl_pressure", "i2">>, <<"lcl_height", "i0">>, <<"lfc_pressure", "i2">>, <<"lfc_height", "i0">>, <<"lnb_pressure", "i2">>,
     <<"lnb_height", "i0">>, <<"lifted_index", "i0">>, <<"showalter_index", "i0">>, <<"k_index", "i0">>, <<"total_totals_index", "i0">>,
     <<"cape", "i0">>, <<"convective_inhibition", "i0">> >>

\* a level with none of the observations is left out
Observed(l, derived) ==
  IF derived THEN ~(Missing(l[4]) /\ Missing(l[12]) /\ Missing(l[15]) /\ Missing(l[17]))
  ELSE ~(Missing(l[8]) /\ Missing(l[12]) /\ Missing(l[13]) /\ Missing(l[11]))
Levels(s, derived) == SelectSeq(s.levels, LAMBDA l: Observed(l, derived))
\* all levels of the chosen soundings, in archive order, each with its sounding
AllLevels(chosen, derived) ==
  Fold(Len(chosen), <<>>, LAMBDA acc, i:
    acc \o LET ls == Levels(chosen[i], derived) IN [n \in 1..Len(ls) |-> <<chosen[i], ls[n]>>])

Wind(sign, l) ==   \* component of the wind along that axis, m/s; sign picks sine or cosine
  IF Missing(l[12]) \/ Missing(l[13]) THEN "nan"
  ELSE LET d == (l[12] * Pi) / 180 IN 0 - ((l[13] / 10) * (IF sign = "u" THEN Sin(d) ELSE Cos(d)))

FileName(q) ==
  IF q.derived THEN "derived-por/" \o q.id \o "-drvd.txt.zip"
  ELSE IF q.recent THEN "data-y2d/" \o q.id \o "-data-beg2021.txt.zip"
  ELSE "data-por/" \o q.id \o "-data.txt.zip"
ArchiveUrl == "https://www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/"

IgraUnits == [etime |-> "second", pressure |-> "hPa", height |-> "meter", temperature |-> "degC", dewpoint |-> "degC",
              direction |-> "degrees", speed |-> "meter / second", u_wind |-> "meter / second", v_wind |-> "meter / second"]

(* ------------------------------- Wyoming -------------------------------- *)
\* a level is its six columns, "nan" where the page is blank
Complete(l) == ~IsNaN(l[3]) /\ ~IsNaN(l[4])
WyomingColumns == <<"pressure", "height", "temperature", "dewpoint", "rh", "mixr">>
WyomingUnits == [pressure |-> "hPa", height |-> "meter", temperature |-> "degC", dewpoint |-> "degC", rh |-> "%", mixr |-> "g/kg",
                 station |-> "", station_number |-> "", time |-> "", latitude |-> "degrees", longitude |-> "degrees", elevation |-> "meter"]

(* -------------------------------- ERA5 ---------------------------------- *)
ArgMin(n, F(_)) == CHOOSE i \in 1..n : \A j \in 1..n : F(i) < F(j) \/ (F(i) =< F(j) /\ i =< j)
Rad(x) == (x * Pi) / 180
\* haversine of the distance between two points
Hav(la1, lo1, la2, lo2) ==
  LET a == Sin((Rad(la1) - Rad(la2)) / 2)
      b == Sin((Rad(lo1) - Rad(lo2)) / 2)
  IN (a * a) + (Cos(Rad(la1)) * Cos(Rad(la2)) * (b * b))
Nearest(grid, x) == ArgMin(Len(grid), LAMBDA i: Abs(grid[i] - x))
\* columns come surface first
Flipped(s) == Vec(Len(s), LAMBDA i: s[Len(s) + 1 - i])
EraHeights(p, t, q) == Thickness(p, t, q)
\* north, west, south, east
EraArea(q) == <<q.lat + q.offset, q.lon - q.offset, q.lat - q.offset, q.lon + q.offset>>
EraLevels == <<1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600,
               650, 700, 750, 775, 800, 825, 850, 875, 900, 925, 950, 975, 1000>>
EraVariables == {"relative_humidity", "specific_cloud_ice_water_content", "specific_cloud_liquid_water_content", "specific_humidity",
                 "specific_rain_water_content", "specific_snow_water_content", "ozone_mass_mixing_ratio", "temperature"}
EraUnits == [p |-> "hPa", z |-> "km", t |-> "K", rh |-> "decimal", clwc |-> "kg kg-1", ciwc |-> "kg kg-1", crwc |-> "kg kg-1",
             cswc |-> "kg kg-1", o3 |-> "kg kg-1", q |-> "kg kg-1"]
=============================================================================
