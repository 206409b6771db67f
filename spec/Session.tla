------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A process that uses the library: the models selected for each species,  *)
(* the simulation objects with their options, the spectroscopic parameter  *)
(* sets the caller holds, and the results returned so far.                 *)
(*                                                                         *)
(* The state is one record st; an event e takes it to Step(st, e).  What   *)
(* an execution returns is a function of its Key alone: the options of the *)
(* object, the models selected, and the parameter set given.               *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

\* models each species has
WaterKnown == {"R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD", "R21SD", "R22SD", "R23SD", "R24", "MWL24"}
OxygenKnown == {"R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD", "R22", "R23", "R24"}
AnyKnown == WaterKnown \cup OxygenKnown       \* nitrogen and cloud liquid
OzoneKnown == {"R18", "R22", "R23"}

Species == {"h2o", "o2", "n2", "liq", "o3"}
Unset == ""
NoModels == [h2o |-> Unset, o2 |-> Unset, n2 |-> Unset, liq |-> Unset, o3 |-> Unset]

Start == [sel |-> NoModels, objs |-> <<>>, pars |-> <<>>, res |-> <<>>]

\* one model for water vapour, oxygen, nitrogen and cloud liquid
SelectAll(sel, m) == [sel EXCEPT !.h2o = m, !.o2 = m, !.n2 = m, !.liq = m]
\* weighting functions use the model asked for, and for oxygen the latest
LatestOxygen == "R24"
WfModels(sel, m) == [SelectAll(sel, m) EXCEPT !.o2 = LatestOxygen]

NoPar == 0
Object(e) == [scen |-> e.scen, sat |-> e.sat, ray |-> e.ray, o3 |-> e.o3, cloudy |-> e.cloudy,
              ice |-> FALSE, es |-> 1, amu |-> e.amu]

(* ------------------------------- executing ------------------------------ *)
ParOf(st, o) == IF o.amu = NoPar THEN <<>> ELSE st.pars[o.amu]
OzoneUsed(sel, o) == o.o3 /\ sel.o3 # Unset

(* models as far as the execution uses them *)
Used(sel, o) == [h2o |-> sel.h2o, o2 |-> sel.o2, n2 |-> sel.n2,
                 liq |-> IF o.cloudy THEN sel.liq ELSE Unset,
                 o3 |-> IF OzoneUsed(sel, o) THEN sel.o3 ELSE Unset]

Key(st, n) == LET o == st.objs[n] IN
  [scen |-> o.scen, sat |-> o.sat, ray |-> o.ray, o3 |-> OzoneUsed(st.sel, o), cloudy |-> o.cloudy, ice |-> o.ice,
   es |-> o.es, models |-> Used(st.sel, o), par |-> ParOf(st, o)]

\* exception classes an execution may end with, {} when it must succeed
Refusals(st, n) ==
  LET o == st.objs[n] s == st.sel IN
  (IF s.h2o \notin WaterKnown \/ s.o2 \notin OxygenKnown \/ (OzoneUsed(s, o) /\ s.o3 \notin OzoneKnown)
   THEN {"AbsModelError"} ELSE {})
  \cup (IF s.n2 \notin AnyKnown \/ (o.cloudy /\ s.liq \notin AnyKnown) THEN {"ValueError"} ELSE {})

\* a parameter set belongs to the models it was built from
ParFits(st, n) ==
  LET o == st.objs[n] p == ParOf(st, o) IN
  IF o.amu = NoPar THEN TRUE
  ELSE p.m = st.sel.h2o /\ p.m = st.sel.o2 /\ (OzoneUsed(st.sel, o) => p.m3 = st.sel.o3)

(* -------------------------------- events -------------------------------- *)
Step(st, e) ==
  CASE e.op = "new"     -> [st EXCEPT !.objs = Append(@, Object(e)),
                                      !.sel = IF e.absmdl = Unset THEN @ ELSE SelectAll(@, e.absmdl)]
    [] e.op = "init"    -> [st EXCEPT !.sel = SelectAll(@, e.m)]
    [] e.op = "select"  -> [st EXCEPT !.sel[e.sp] = e.m]
    [] e.op = "sat"     -> [st EXCEPT !.objs[e.obj].sat = e.v]
    [] e.op = "ray"     -> [st EXCEPT !.objs[e.obj].ray = e.v]
    [] e.op = "ice"     -> [st EXCEPT !.objs[e.obj].ice = e.v]
    [] e.op = "es"      -> [st EXCEPT !.objs[e.obj].es = e.v]
    [] e.op = "cloudy"  -> [st EXCEPT !.objs[e.obj].cloudy = e.v]
    [] e.op = "amu"     -> [st EXCEPT !.objs[e.obj].amu = e.par]
    [] e.op = "params"  -> [st EXCEPT !.pars = Append(@, [m |-> e.m, m3 |-> e.m3, perts |-> <<>>]),
                                      !.sel = [@ EXCEPT !.h2o = e.m, !.o2 = e.m, !.o3 = e.m3]]
    [] e.op = "perturb" -> [st EXCEPT !.pars = Append(@, [st.pars[e.par] EXCEPT !.perts = Append(@, e.pert)])]
    [] e.op = "wf"      -> [st EXCEPT !.sel = WfModels(@, e.m)]
    \* what changes nothing: rejected options, other computations on the same
    \* inputs, overwriting a result that was returned
    \* executions that break off half way
    [] e.op \in {"badnew", "badsat", "bades", "aux", "scribble", "badrun"} -> st
    [] e.op = "execute" -> IF Refusals(st, e.obj) # {} THEN st ELSE [st EXCEPT !.res = Append(@, Key(st, e.obj))]

Enabled(st, e) ==
  CASE e.op \in {"sat", "ray", "ice", "es", "cloudy", "amu", "execute", "init", "badsat", "bades", "badrun"} ->
         e.obj <= Len(st.objs)
         /\ (e.op = "execute" => ParFits(st, e.obj))
         /\ (e.op = "amu" => e.par <= Len(st.pars))
    [] e.op = "perturb" -> e.par <= Len(st.pars)
    [] e.op = "new" -> e.amu <= Len(st.pars)
    [] e.op = "scribble" -> e.n <= Len(st.res)
    [] OTHER -> TRUE

(* ------------------------------ properties ------------------------------ *)
TypeOK(st) ==
  /\ DOMAIN st.sel = Species
  /\ \A n \in 1..Len(st.objs) : st.objs[n].amu <= Len(st.pars)

\* a result, once returned, stays (C03)
Snapshots(st, t) == Len(t.res) >= Len(st.res) /\ \A n \in 1..Len(st.res) : t.res[n] = st.res[n]
\* the parameter sets handed out stay (C02, C15)
ParsKept(st, t) == Len(t.pars) >= Len(st.pars) /\ \A n \in 1..Len(st.pars) : t.pars[n] = st.pars[n]
\* options of one object change by events on that object only (C01)
Private(st, t, e) == \A n \in 1..Len(st.objs) : t.objs[n] # st.objs[n] => "obj" \in DOMAIN e /\ e.obj = n
\* selections change by selecting only: a species by its own selection, the
\* four by the common one (C04)
SelectionRule(st, t, e) ==
  t.sel # st.sel =>
    \/ e.op = "select" /\ \A s \in Species \ {e.sp} : t.sel[s] = st.sel[s]
    \/ e.op = "wf" /\ t.sel.o3 = st.sel.o3 /\ t.sel = WfModels(st.sel, t.sel.h2o)
    \/ e.op \in {"init", "new"} /\ t.sel.o3 = st.sel.o3 /\ Cardinality({t.sel[s] : s \in {"h2o", "o2", "n2", "liq"}}) = 1
    \/ e.op = "params" /\ t.sel.n2 = st.sel.n2 /\ t.sel.liq = st.sel.liq
=============================================================================
