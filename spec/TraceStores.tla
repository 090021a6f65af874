------------------------------- MODULE TraceStores -------------------------------
(***************************************************************************)
(* Validates recorded histories of image containers against Stores.  Every  *)
(* event shows both containers as their accessors report them.              *)
(***************************************************************************)
EXTENDS Stores, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, stores>>

Init == l = 0 /\ a = Nothing /\ b = Nothing /\ unit = 1 /\ home = <<>>

Shows(r, s) ==
    IF ~Exists(s) THEN r.ch = 0
    ELSE /\ r.w = s.w /\ r.h = s.h /\ r.ch = s.ch /\ r.safe = Safe(s) /\ r.bd = s.bd
         /\ r.sw = s.w /\ r.sh = s.h /\ r.data = s.data
         /\ r.stride = Safe(s) \/ r.stride = s.stride

Begin(e) ==
    LET u == IF e.ty \in {"f32", "f16"} THEN 256 ELSE 1
        m == e.mut = 1
        fill == Filled(e.fill, e.len, u)
        up == IF "up" \in DOMAIN e THEN e.up ELSE 0
        good == up = 0 /\ (e.ctor \in {"alloc", "depth", "parts"} \/ Fits(e.w, e.h, e.n, e.len))
    IN /\ unit' = u /\ b' = Nothing /\ home' = fill
       /\ IF good THEN
             /\ e.res = "ok"
             /\ a' = CASE e.ctor = "new" -> Made(e.w, e.h, e.n, fill, m)
                       [] e.ctor \in {"borrow", "from_slice"} -> Lend(Made(e.w, e.h, e.n, fill, m))
                       [] e.ctor = "alloc" -> Alloc(e.w, e.h, e.n, 0, m)
                       [] e.ctor = "depth" -> Alloc(e.w, e.h, e.n, e.depth, TRUE)
                       [] OTHER -> Parts(e.w, e.h, e.n, e.stride, e.depth, fill, m)
          ELSE e.res = "err" /\ e.code = 4 /\ a' = Nothing
               \* up > 0: both axes times two to the power of up, more than any buffer holds
               /\ e.err = IF up > 0 THEN <<e.w, e.h, e.n, e.len>> ELSE Mismatch(e.w, e.h, e.n, e.len)

\* the end of a history: the containers are gone, the caller's buffer is left
End(e) == e.home = home /\ a' = Nothing /\ b' = Nothing /\ UNCHANGED <<unit, home>>
\* what a name of a container stands for
Alias(e) == e.n = Kinds[e.kind] /\ e.ty = Samples[e.sample] /\ e.mutable = e.mut

Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l + 1]
           IN IF e.op = "alias" THEN Alias(e) /\ UNCHANGED stores ELSE
              /\ e.res \in {"ok", "err"}
              /\ IF e.step = 0 THEN Begin(e) ELSE IF e.act = "end" THEN End(e) ELSE e.res = "ok" /\ Do(e.act, e.arg)
              /\ IF Shows(e.a, a') /\ Shows(e.b, b') THEN TRUE ELSE FALSE

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
================================================================================
