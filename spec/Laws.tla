---------------------------------- MODULE Laws ----------------------------------
(***************************************************************************)
(* Relations between calls.  The scaler is a partial function from logical *)
(* requests to images that is learned call by call: `seen' holds the calls *)
(* made so far (in the current group of the trace; forgetting only loses   *)
(* comparisons), `maps' the images known to be rearrangements of others.   *)
(* Images are named by their digests.                                      *)
(*                                                                         *)
(* `settings' is the state of every named scaler: its filter and strategy. *)
(***************************************************************************)
EXTENDS Conform

VARIABLES seen, maps, settings    \* two sequences of events and a function of names

\* ---- what a result may depend on -----------------------------------------
Api(e) == LET a == Get(e, "api", "direct") IN IF a = "store" THEN "direct" ELSE a
FilterNo(e) == IF Get(e, "sc", "") \in DOMAIN settings THEN settings[e.sc].f ELSE e.f
Strategy(e) == IF "strat" \in DOMAIN e THEN e.strat ELSE IF Get(e, "sc", "") \in DOMAIN settings THEN settings[e.sc].wl
               ELSE IF Get(e, "api", "direct") # "direct" THEN "s" ELSE Get(e, "wl", "s")
Assoc(e) == IF Chan(e) = 4 /\ ~Packed(e) THEN Get(e, "pm", 0) ELSE 0
Depth(e) == IF e.ty = "u16" THEN BD(e) ELSE 0
\* the format of the pixels, without the way they are packed
Request(e) == << e.ty, Chan(e), Api(e), Get(e, "tr", 0), FilterNo(e), e.sw, e.sh, e.dw, e.dh, Strategy(e), Assoc(e), Depth(e), e.src, e.v >>
SamePlan(a, b) == \* the same request on other images of other sizes
    LET p == Request(a) q == Request(b)
    IN \A i \in {1, 3, 4, 5, 10, 11, 12, 14} : p[i] = q[i]

Ok == { i \in 1..Len(seen) : seen[i].res = "ok" }
M == 1..Len(maps)

\* equal requests have equal results and equal outcomes
Functional(e) ==
    \A i \in 1..Len(seen) : LET s == seen[i] IN Request(s) = Request(e) => s.res = e.res /\ (e.res = "ok" => s.dst = e.dst)
\* the same request through another entry point fails in the same way too
SameFailure(e) ==
    \A i \in 1..Len(seen) : LET s == seen[i] IN Request(s) = Request(e) /\ Get(s, "geo", 0) = Get(e, "geo", 0)
                    => s.res = e.res /\ s.code = e.code /\ s.msg = e.msg /\ s.unt = e.unt

\* height first, then width
Composed(e) ==
    \A i \in Ok, j \in Ok : LET v == seen[i] h == seen[j] IN
        /\ SamePlan(v, e) /\ SamePlan(h, e) /\ v.n = e.n /\ h.n = e.n
        /\ e.sw # e.dw /\ e.sh # e.dh /\ Assoc(e) = 0
        /\ v.src = e.src /\ v.sw = e.sw /\ v.sh = e.sh /\ v.dw = e.sw /\ v.dh = e.dh
        /\ h.src = v.dst /\ h.sw = e.sw /\ h.sh = e.dh /\ h.dw = e.dw /\ h.dh = e.dh
        => e.dst = h.dst

MappedBy(m, a, s) == {i \in M : maps[i].map = m /\ ToString(maps[i].arg) = ToString(a) /\ maps[i].src = s}
Mapped(m, a, s) == { maps[i].dst : i \in {i \in M : maps[i].map = m /\ ToString(maps[i].arg) = ToString(a) /\ maps[i].src = s} }

\* how far two honest results of one request may be apart; a second pass amplifies the rounding of the first
Agree(e, s, a, b) ==
    IF Float(e) THEN \/ Abs(a) >= 2000000
                     \/ Abs(a - b) <= (IF e.ty = "f16" THEN 4 + MaxI(65536, Abs(a)) \div 700 ELSE 3 + MaxI(65536, Abs(a)) \div 30000)
    ELSE LET fast == e.ty = "u8" /\ (Strategy(e) = "s" \/ Strategy(s) = "s")
             one == IF fast THEN 2 ELSE 1
         IN Abs(a - b) <= one \/ (Horizontal(e) /\ Vertical(e) /\ Abs(a - b) * 1000 <= one * (1000 + MaxGain(HTable(e).r)))
\* samples that are computed in fixed point are the same bit for bit wherever they lie in a row; single precision
\* sums (of formats without fixed point, and of taps beyond one) are ordered or fused in ways that depend on the place
Exact(e) == FixedPoint(e) /\ \A t \in Tables(e) : \A i \in 1..Len(t.r) : \A k \in 1..Len(t.r[i].w) : FScale(t.r[i].w[k], 32768) <= 32768
SamePicture(e, s, k) ==
    \/ maps[k].dst = e.dst
    \/ /\ "out" \in DOMAIN maps[k] /\ "out" \in DOMAIN e /\ Len(maps[k].out) = Len(e.out)
       /\ ~Exact(e)
       /\ \A q \in 1..Len(e.out) : Agree(e, s, e.out[q], maps[k].out[q])
\* permuting channels commutes with resizing
Permuted(e) ==
    \A i \in M, j \in Ok : LET x == maps[i] s == seen[j] IN
        /\ x.map = "perm" /\ x.dst = e.src /\ x.src = s.src
        /\ SamePlan(s, e) /\ s.n = e.n /\ Assoc(e) = 0
        /\ s.sw = e.sw /\ s.sh = e.sh /\ s.dw = e.dw /\ s.dh = e.dh
        => \A k \in MappedBy("perm", x.arg, s.dst) : SamePicture(e, s, k)
\* gathering rows commutes with resizing the width, gathering columns with resizing the height:
\* bit for bit in fixed point, within the rounding of sums that are added in another order otherwise
Gathered(e) ==
    \A i \in M, j \in Ok : LET x == maps[i] s == seen[j] IN
        /\ x.map \in {"rows", "cols"} /\ x.dst = e.src /\ x.src = s.src
        /\ SamePlan(s, e) /\ s.n = e.n /\ Assoc(e) = 0
        /\ x.map = "rows" => e.sh = e.dh /\ s.sh = s.dh /\ s.sw = e.sw /\ s.dw = e.dw
        /\ x.map = "cols" => e.sw = e.dw /\ s.sw = s.dw /\ s.sh = e.sh /\ s.dh = e.dh
        => \A k \in MappedBy(x.map, x.arg, s.dst) : SamePicture(e, s, k)

\* an output sample is a function of the samples inside its window
Local(e) ==
    \A i \in Ok : LET s == seen[i] IN
        /\ SamePlan(s, e) /\ s.n = e.n /\ s.sw = e.sw /\ s.sh = e.sh /\ s.dw = e.dw /\ s.dh = e.dh
        /\ "out" \in DOMAIN s /\ "out" \in DOMAIN e /\ "in" \in DOMAIN s /\ "in" \in DOMAIN e
        /\ Horizontal(e) # Vertical(e)
        => LET hz == Horizontal(e)
               t == IF hz THEN HTable(e) ELSE VTable(e)
               n == Chan(e)
               line == e.sw * n
               cell(x, y, c, j) == IF hz THEN y * line + j * n + c + 1 ELSE j * line + x * n + c + 1
               pos(p) == IF hz THEN p[1] ELSE p[2]
           IN \A p \in Pixels(e) :
                \/ At(e, p) = At(s, p)
                \/ \E j \in Support(t.r[pos(p) + 1]) :
                      LET k == cell(p[1], p[2], p[3], j) IN e.in[k] # s.in[k]
                \/ (PrintT(<<"WRONG", e.id, "depends on samples outside the window at x,y,c", p>>) /\ FALSE)

SameButHost(a, b) ==
    LET p == Request(a) q == Request(b) IN \A i \in (1..13) \ {10} : p[i] = q[i]
Agreement(e) ==
    \A z \in Ok : LET s == seen[z] IN SameButHost(s, e) /\ "out" \in DOMAIN s /\ "out" \in DOMAIN e /\ Len(s.out) = Len(e.out)
        => \A k \in 1..Len(e.out) :
             \/ Agree(e, s, e.out[k], s.out[k])
             \/ (PrintT(<<"WRONG", e.id, "differs from", s.id, "at component", k, s.out[k], e.out[k]>>) /\ FALSE)
\* a channel resized alone
PlaneOf(e) ==
    \A i \in M, j \in Ok : LET x == maps[i] s == seen[j] IN
        /\ x.map = "perm" /\ x.dst = e.src /\ x.src = s.src /\ e.n = 1 /\ s.n > 1 /\ "ch" \in DOMAIN x
        /\ SamePlan(s, e) /\ s.sw = e.sw /\ s.sh = e.sh /\ s.dw = e.dw /\ s.dh = e.dh
        /\ "out" \in DOMAIN s /\ "out" \in DOMAIN e
        => \A k \in 1..Len(e.out) :
             \/ Agree(e, s, e.out[k], s.out[(k - 1) * s.n + x.ch + 1])
             \/ (PrintT(<<"WRONG", e.id, "channel", x.ch, "alone differs at pixel", k>>) /\ FALSE)

\* a colour space scaler converts, resizes in its space and converts back
Space(e) == e.api \o "," \o ToString(IF e.api \in {"lineart", "linapproxt", "oklab", "jzazbz"} THEN Get(e, "tr", 0) ELSE 0)
Converted(e) ==
    Get(e, "api", "direct") # "direct" /\ (e.sw # e.dw \/ e.sh # e.dh) =>
    \A i \in MappedBy("enc", Space(e), e.src), j \in Ok :
        LET s == seen[j] IN
        /\ Get(s, "api", "direct") = "direct" /\ s.src = maps[i].dst /\ s.n = e.n /\ FilterNo(s) = FilterNo(e)
        /\ s.sw = e.sw /\ s.sh = e.sh /\ s.dw = e.dw /\ s.dh = e.dh /\ Assoc(s) = Assoc(e) /\ Strategy(s) = "s"
        => \A k \in MappedBy("dec", Space(e), s.dst) :
             LET o == maps[k].out
                 wrong == { q \in 1..Len(e.out) : Abs(e.out[q] - o[q]) > 1 }
             IN wrong = {} \/ (PrintT(<<"WRONG", e.id, "is not", Space(e), "converted, resized and converted back, at", CHOOSE q \in wrong : TRUE>>) /\ FALSE)

\* the two packings and the byte orders carry the same picture: compare without the format
PackingFree(e) ==
    \A z \in Ok : LET s == seen[z] IN Packed(s) /\ Packed(e) /\ (\A i \in 3..14 : Request(s)[i] = Request(e)[i]) => s.dst = e.dst

(***************************************************************************)
(* Threads: `count' is what the policy answers for an image of sw by sh,    *)
(* `pool' the threads of the pool it makes (0: no pool, the caller works),  *)
(* `avail' the parallelism the host offers.                                *)
(***************************************************************************)
Threads(e) ==
    /\ CASE e.pol = "s" -> e.count = 1 /\ e.pool = 0
         [] e.pol = "a" -> e.count \in 1..e.avail /\ e.pool = e.count
         [] OTHER -> e.count = MaxI(e.k, 1) /\ e.pool = e.count
    \* `up': both axes times two to the power of `up'
    /\ e.pol = "a" => \A z \in Ok : LET s == seen[z] IN
          s.op = "tc" /\ s.pol = "a"
          => /\ s.sw <= e.sw /\ s.sh <= e.sh /\ s.up <= e.up => s.count <= e.count
             /\ s.sw >= e.sw /\ s.sh >= e.sh /\ s.up >= e.up => s.count >= e.count

(* A call starts `used' threads, which are those the policy promises for    *)
(* the image it makes; a promise of one thread may be kept by the calling   *)
(* thread, and a call that only copies or fails need not start any.         *)
Used(e) ==
    /\ IF e.pol = "s" THEN e.count = 1 ELSE IF e.pol = "a" THEN e.count \in 1..e.avail ELSE e.count = MaxI(e.k, 1)
    /\ \/ e.used = 0 /\ (e.count = 1 \/ e.res # "ok" \/ (e.sw = e.dw /\ e.sh = e.dh))
       \/ e.used = e.count /\ e.pol # "s"
================================================================================
