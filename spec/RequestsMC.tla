-------------------------------- MODULE RequestsMC --------------------------------
(***************************************************************************)
(* Requests by deviation: from an ordinary request, change up to `Depth'    *)
(* of its parts.  Every reachable request is checked against what being     *)
(* well formed is for, and printed as a plan for the driver.                *)
(***************************************************************************)
EXTENDS Requests, Json

CONSTANTS Depth, Types
VARIABLES r, changed
vars == <<r, changed>>

\* ss, ds: distance of the stride from a row, None: not declared, Zero: declared as 0
\* sx, dx: distance of the buffer's length from what the stride asks for
None == 77
Zero == 88
Bases == { [ty |-> t, n |-> n, sw |-> g[1], sh |-> g[2], dw |-> g[3], dh |-> g[4], ss |-> None, ds |-> None, sx |-> 0, dx |-> 0,
            bd |-> IF t = "u16" THEN 10 ELSE 0, f |-> f]
           : t \in Types, n \in 1..4, g \in {<<3, 2, 2, 3>>, <<2, 3, 2, 3>>, <<3, 2, 3, 1>>, <<1, 3, 4, 3>>}, f \in {0, 1} }
PackedTypes == {"ar30h", "ar30n", "ra30h", "ra30n"}
Init == r \in { b \in Bases : b.ty \in PackedTypes => b.n = 4 } /\ changed = {}

Change(k, v) == /\ k \notin changed /\ Cardinality(changed) < Depth /\ r[k] # v
                /\ r' = [r EXCEPT ![k] = v] /\ changed' = changed \cup {k}
Next ==
    \/ \E k \in {"sw", "sh", "dw", "dh"} : Change(k, 0)
    \/ \E k \in {"ss", "ds"}, v \in {-1, 0, 1, 5} \cup (IF r.ty \in PackedTypes THEN {} ELSE {Zero}) : Change(k, v)
    \/ \E k \in {"sx", "dx"}, v \in {-1000, -1, 1, 12} : Change(k, v)
    \/ r.ty = "u16" /\ \E v \in {0, 1, 16, 17, 1000} : Change("bd", v)

\* the request as the operators of Requests see it
Least(x) == IF x < 0 THEN 0 ELSE x
Declared(w, s) == IF s = Zero THEN 0 ELSE Least(w * r.n + s)
Base == [ty |-> r.ty, n |-> r.n, sw |-> r.sw, sh |-> r.sh, dw |-> r.dw, dh |-> r.dh, bd |-> r.bd, f |-> r.f]
WithS == IF r.ss = None THEN Base ELSE Base @@ [ss |-> Declared(r.sw, r.ss)]
WithD == IF r.ds = None THEN WithS ELSE WithS @@ [ds |-> Declared(r.dw, r.ds)]
Req == WithD @@ [sl |-> Least(SS(WithD) * r.sh + r.sx)] @@ [dl |-> Least(DS(WithD) * r.dh + r.dx)]

\* a well formed request names only memory it has, and has something to do
Sound == WellFormed(Req) =>
            /\ SL(Req) >= (Req.sh - 1) * SS(Req) + Req.sw * Unit(Req)
            /\ DL(Req) >= (Req.dh - 1) * DS(Req) + Req.dw * Unit(Req)
            /\ SL(Req) > 0 /\ DL(Req) > 0
\* each single deviation that spoils a request is named by exactly one defect
Named == Cardinality(changed) = 1 /\ ~WellFormed(Req) /\ changed \subseteq {"sw", "sh", "dw", "dh", "sx", "dx", "bd"}
            => Cardinality({ d[1] : d \in Defects(Req) }) = 1
Plan == PrintT("PLAN " \o ToJson(Req))
================================================================================
