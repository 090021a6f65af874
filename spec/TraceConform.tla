------------------------------ MODULE TraceConform ------------------------------
(***************************************************************************)
(* Validates a trace of calls recorded from the code: event l + 1 is       *)
(* accepted if the property under study allows it.  The events are judged  *)
(* one by one; relations between events are judged by TraceLaws.            *)
(***************************************************************************)
EXTENDS Colours, Json, IOUtils

CONSTANT Property
Known == JsonDeserialize(IOEnv.KNOWN)
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
vars == <<l>>

\* a flat source: the result is flat too, exactly in integer formats unless speed is preferred,
\* and within the rounding of the sums in floating point
Flat(e) ==
    LET v == e.v0
        ts == Tables(e)
        bad == { t \in ts : \E i \in 1..Len(t.r) : Gain(t.r[i]) > 4000 }
        axes == (IF Horizontal(e) THEN 1 ELSE 0) + (IF Vertical(e) THEN 1 ELSE 0)
        q == IF FixedPoint(e) THEN 0 ELSE Summed(e, v)
        up == IF Float(e) THEN FTol(e, 1000 * v, 1000) * axes + 1000 + q
              ELSE IF Fast(e) THEN Up(e) * axes ELSE 600 + q
        dn == IF Float(e) THEN up ELSE IF Fast(e) THEN Down(e) * axes ELSE 600 + q
        in(b) == b.lo * 1000 >= 1000 * v - dn /\ b.hi * 1000 <= 1000 * v + up
    IN \/ e.f = Nearest /\ e.lo = v /\ e.hi = v
       \/ SameSize(e) /\ e.lo = v /\ e.hi = v
       \/ e.f # Nearest /\ in(e)
       \/ bad # {} /\ Listed("ill-conditioned-kernel", e.f) /\ PrintT(<<"KNOWN", "ill-conditioned-kernel", e.f, e.id>>)

\* the name behind a filter number; numbers beyond the table mean bilinear
Named(e) == e.fname = IF e.f \in 0..(Len(Filter) - 1) THEN FilterOf(e.f).name ELSE FilterOf(0).name

\* the weights of a filter as the code applies them: the source is an identity matrix
\* (row j is one at column j), so output (i, j) is the weight of source sample j at output sample i
Response(e) ==
    LET t == HTable(e)
        s == Get(e, "one", 65536)
        w(i, j) == LET r == t.r[i + 1] k == j - r.start + 1 IN IF k \in 1..Len(r.w) THEN FScale(r.w[k], s) ELSE 0
        g == MaxGain(t.r)
    IN IF g > 40000 THEN TRUE    \* ill-conditioned: see Weights
       ELSE \A i \in 0..(e.dw - 1), j \in 0..(e.sw - 1) :
              \/ Abs(e.out[j * e.dw + i + 1] - w(i, j)) <= 2 + g \div 1000
              \/ (PrintT(<<"WRONG", e.id, "weight of", j, "at", i, "is", e.out[j * e.dw + i + 1], "not", w(i, j)>>) /\ FALSE)

Pixel(e) == e.res = "ok" /\ Correct(e)
Accept(e) ==
    CASE Property = "C01" -> Outcome(e)
      [] Property = "C02" -> Contained(e) /\ e.res = "ok"
      [] Property = "C05" -> e.res = "ok" /\ Copied(e)
      [] Property = "C06" -> e.res = "ok" /\ Picked(e)
      [] Property = "C07" -> e.res = "ok" /\ Flat(e)
      [] Property = "C24" -> e.res = "ok" /\ (IF e.op = "fn" THEN Named(e) ELSE Response(e))
      [] Property = "C20" -> e.res = "ok" /\ ColourOk(e)
      [] OTHER -> Pixel(e)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ IF Accept(Trace[l + 1]) THEN l' = l + 1 ELSE FALSE    \* a test, not an action with branches
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
================================================================================
