-------------------------------- MODULE TraceLaws --------------------------------
(***************************************************************************)
(* Validates a trace of calls against the relations of Laws.  Events of    *)
(* one group share the field `grp'; the group is forgotten when it changes. *)
(***************************************************************************)
EXTENDS Laws, Json, IOUtils

CONSTANT Property
Known == JsonDeserialize(IOEnv.KNOWN)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, seen, maps, settings>>

Init == l = 0 /\ seen = <<>> /\ maps = <<>> /\ settings = <<>>

Allowed(e) ==
    /\ e.res \in {"ok", "err"}
    /\ CASE Property = "C03" -> e.res = "ok" /\ Functional(e)
         [] Property = "C04" -> Contained(e) /\ e.res = "ok" /\ Functional(e)
         [] Property = "C13" -> e.res = "ok" /\ Functional(e) /\ PackingFree(e)
         [] Property = "C14" -> Functional(e) /\ SameFailure(e)
         [] Property = "C15" -> e.res = "ok" /\ Permuted(e) /\ PlaneOf(e)
         [] Property = "C16" -> e.res = "ok" /\ Agreement(e)
         [] Property = "C17" -> e.res = "ok" /\ Composed(e)
         [] Property = "C18" -> e.res = "ok" /\ Gathered(e) /\ Local(e)
         [] Property = "C19" -> Outcome(e) /\ (e.res = "ok" => Functional(e))
         [] Property = "C20" -> e.res = "ok" /\ Functional(e) /\ Converted(e)
         [] Property = "C23" -> e.res = "ok" /\ (IF e.op = "tc" THEN Threads(e) ELSE Used(e))
         [] OTHER -> e.res = "ok" /\ Functional(e) /\ Permuted(e)

Group(e) == Get(e, "grp", 0)
\* the next event opens another group
Last == l + 1 < Len(Trace) /\ Group(Trace[l + 1]) # Group(Trace[l + 2])
Keep(s) == IF Last THEN <<>> ELSE s

Setting(e) ==
    LET old == IF e.sc \in DOMAIN settings THEN settings[e.sc] ELSE [f |-> 0, wl |-> "s"]
        base == IF "copy" \in DOMAIN e THEN settings[e.copy] ELSE IF "f" \in DOMAIN e THEN [f |-> e.f, wl |-> "s"] ELSE old
    IN [base EXCEPT !.wl = Get(e, "wl", @)]

\* a call is remembered with the settings its scaler had then, not by its scaler's name
Resolved(e) == IF e.op = "tc" THEN e ELSE [sc |-> "", f |-> FilterNo(e), strat |-> Strategy(e)] @@ e

Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
       IN CASE e.op = "map" -> maps' = Keep(Append(maps, e)) /\ seen' = Keep(seen) /\ UNCHANGED settings
            [] e.op = "set" ->
                 /\ settings' = [x \in DOMAIN settings \cup {e.sc} |-> IF x = e.sc THEN Setting(e) ELSE settings[x]]
                 /\ seen' = Keep(seen) /\ maps' = Keep(maps)
            [] OTHER ->
                 /\ IF Allowed(e) THEN seen' = Keep(Append(seen, Resolved(e))) ELSE FALSE
                 /\ maps' = Keep(maps) /\ UNCHANGED settings

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
================================================================================
