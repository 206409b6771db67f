------------------------------- MODULE Advice -------------------------------
(***************************************************************************)
(* What a simulation announces by a warning (C29).                         *)
(*                                                                         *)
(* A process makes simulation objects of profiles, switches clouds on and  *)
(* off, gives them clouds, selects models for cloud liquid, and executes.  *)
(* The state keeps what decides the announcements: whether an object is    *)
(* cloudy, whether it has clouds, and the model selected for cloud liquid. *)
(* What is known of the numbers (facts f of an object) is                  *)
(*   f.doubtful  fewer than 25 levels, or a top at 10 hPa or below         *)
(*   f.unsound   an execution meets values it cannot integrate: negative   *)
(*               densities or absorption, a ray that is trapped            *)
(*   f.deep      more than 125 Np in front of the first cloud              *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

LiquidModels == {"R98", "R03", "R16", "R19", "R20SD", "R24"}
Outdated == {"R98", "R03"}
Kinds == {"sound", "short", "shallow", "both", "down", "downshallow", "negative", "ray", "duct", "deep"}
Variants == 1..3

Start == [objs |-> <<>>, liq |-> "R20SD"]
Object(e) == [kind |-> e.kind, var |-> e.var, cloudy |-> e.cloudy, given |-> FALSE]

Step(st, e) ==
  CASE e.op = "new"     -> [st EXCEPT !.objs = Append(@, Object(e))]
    [] e.op = "liquid"  -> [st EXCEPT !.liq = e.m]
    [] e.op = "cloudy"  -> [st EXCEPT !.objs[e.obj].cloudy = e.v]
    [] e.op = "clouds"  -> [st EXCEPT !.objs[e.obj].given = @ \/ st.objs[e.obj].cloudy]
    [] e.op = "execute" -> st

Enabled(st, e) ==
  CASE e.op \in {"cloudy", "clouds"} -> e.obj <= Len(st.objs)
    [] e.op = "execute" -> e.obj <= Len(st.objs) /\ (st.objs[e.obj].cloudy => st.objs[e.obj].given)
    [] OTHER -> TRUE

\* is the event announced; f are the facts of its object
Announced(st, e, f) ==
  CASE e.op = "new"     -> f.doubtful
    [] e.op = "clouds"  -> ~st.objs[e.obj].cloudy
    [] e.op = "execute" -> \/ f.unsound
                           \/ st.objs[e.obj].cloudy /\ (st.liq \in Outdated \/ f.deep)
    [] OTHER -> FALSE
=============================================================================
