--------------------------------- MODULE Session ---------------------------------
(***************************************************************************)
(* A program that uses scalers: it makes and copies scalers, changes their  *)
(* settings, resizes images (also results of earlier calls), puts new       *)
(* pictures of the same size where the old ones were and resizes those,     *)
(* makes calls that are refused, and calls one scaler from several threads. *)
(* A and B are plain scalers, C is a colour space scaler.                   *)
(*                                                                         *)
(* A scaler is its settings; an image is a symbolic value.  The result of a *)
(* call is the term Result(image, request, settings): two calls with the    *)
(* same term must give the same picture, whatever happened in between.      *)
(* Simulation prints histories as plans; the driver replays them and        *)
(* TraceLaws judges the recorded calls.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Wide

Names == {"A", "B"}
All == IF Wide THEN Names \cup {"C"} ELSE Names
Spaces == {"lab", "luv", "lch", "xyz", "sigmoidal", "oklab", "jzazbz", "linear", "lineart", "linapprox", "linapproxt"}
Regs == IF Wide THEN {"R", "S", "T"} ELSE {"R", "S"}
Filters == IF Wide THEN {0, 1, 2, 3, 4, 8, 24, 27, 28, 31, 46, 48} ELSE {0, 1}
Policies == IF Wide THEN {"s", "a", "f1", "f2", "f3", "f5"} ELSE {"s", "f2"}
Formats == IF Wide THEN {"u8", "u16", "f32", "ar30h", "ra30n"} ELSE {"u8"}
PackedFormat(ty) == ty \in {"ar30h", "ra30n"}
Lengths == IF Wide THEN 1..9 \cup {17, 33, 70} ELSE {1, 2}
Kinds == IF Wide THEN {"rand", "opaque", "clear", "flat", "even"} ELSE {"rand"}
Pick(S) == IF Wide /\ S # {} THEN {RandomElement(S)} ELSE S

VARIABLES scalers,   \* name -> [f, pol, wl, api, tr]
          images,    \* register -> [ty, n, bd, w, h, term]
          done,      \* terms of completed calls with the request that repeats them
          acts
vars == <<scalers, images, done, acts>>

NoImage == [ty |-> "", n |-> 0, bd |-> 0, w |-> 0, h |-> 0, term |-> <<>>]
Init == /\ scalers = [s \in All |-> [f |-> 0, pol |-> "a", wl |-> "s", api |-> IF s = "C" THEN "linear" ELSE "direct", tr |-> 0]]
        /\ images = [r \in Regs |-> NoImage]
        /\ done = <<>> /\ acts = <<>>

Say(a) == acts' = Append(acts, a)

New == \E s \in Pick(Names), f \in Pick(Filters) :
          /\ scalers' = [scalers EXCEPT ![s] = [f |-> f, pol |-> "a", wl |-> "s", api |-> "direct", tr |-> 0]]
          /\ Say([op |-> "new", sc |-> s, f |-> f]) /\ UNCHANGED <<images, done>>
NewColour == Wide /\ \E a \in Pick(Spaces), f \in Pick(Filters), t \in Pick(0..6) :
          /\ scalers' = [scalers EXCEPT !["C"] = [f |-> f, pol |-> "a", wl |-> "s", api |-> a, tr |-> t]]
          /\ Say([op |-> "new", sc |-> "C", f |-> f, api |-> a, tr |-> t]) /\ UNCHANGED <<images, done>>
SetPolicy == \E s \in Pick(All), p \in Pick(Policies) :
          /\ scalers' = [scalers EXCEPT ![s].pol = p]
          /\ Say([op |-> "pol", sc |-> s, pol |-> p, api |-> scalers[s].api]) /\ UNCHANGED <<images, done>>
SetStrategy == \E s \in Pick(Names), w \in Pick({"s", "q"}) :
          /\ scalers' = [scalers EXCEPT ![s].wl = w]
          /\ Say([op |-> "wl", sc |-> s, wl |-> w]) /\ UNCHANGED <<images, done>>
CopyScaler == \E s \in Pick(Names), t \in Pick(Names) :
          /\ s # t /\ scalers' = [scalers EXCEPT ![t] = scalers[s]]
          /\ Say([op |-> "copy", sc |-> t, copy |-> s]) /\ UNCHANGED <<images, done>>

\* a new picture in a register
Picture(ty, n, bd, w, h, kind, seed) == [ty |-> ty, n |-> IF PackedFormat(ty) THEN 4 ELSE n, bd |-> IF ty = "u16" THEN bd ELSE 0, w |-> w, h |-> h, term |-> <<"new", kind, seed>>]
LoadAct(r, i, kind, seed) == [op |-> "load", reg |-> r, ty |-> i.ty, n |-> i.n, bd |-> i.bd, w |-> i.w, h |-> i.h, kind |-> kind, seed |-> seed]
Load == \E r \in Pick(Regs), ty \in Pick(Formats), n \in Pick(IF Wide THEN {1, 2, 3, 4, 4} ELSE {1}), bd \in Pick(IF Wide THEN {8, 10, 12, 16} ELSE {8}),
           w \in Pick(Lengths), h \in Pick(Lengths), kind \in Pick(Kinds), seed \in Pick(1..(IF Wide THEN 3 ELSE 1)) :
          LET i == Picture(ty, n, bd, w, h, kind, seed) IN
          /\ images' = [images EXCEPT ![r] = i]
          /\ Say(LoadAct(r, i, kind, seed)) /\ UNCHANGED <<scalers, done>>

Takes(s, i) == i.n > 0 /\ (s = "C" => i.ty = "u8" /\ i.n >= 3)
Used(s) == { r \in Regs : Takes(s, images[r]) }
\* what the result may depend on: the policy is not part of it
Result(i, w, h, pm, set) == <<i.term, i.ty, i.n, i.bd, i.w, i.h, w, h, pm, set.f, set.wl, set.api, set.tr>>
CallAct(s, r, to, i, w, h, pm, par) ==
    [op |-> "call", sc |-> s, reg |-> r, to |-> to, ty |-> i.ty, n |-> i.n, bd |-> i.bd, sw |-> i.w, sh |-> i.h, dw |-> w, dh |-> h, pm |-> pm,
     par |-> IF PackedFormat(i.ty) THEN 1 ELSE par, api |-> scalers[s].api, tr |-> scalers[s].tr]
Completed(s, r, to, i, w, h, pm, term) == [img |-> i, w |-> w, h |-> h, pm |-> pm, set |-> scalers[s], reg |-> r, term |-> term, sc |-> s, to |-> to]

Call == \E s \in Pick(All) : \E r \in Pick(Used(s)), to \in Pick(IF Wide THEN {"T", "S"} ELSE Regs), w \in Pick(Lengths), h \in Pick(Lengths), pm \in Pick({0, 1}), par \in Pick(IF Wide THEN {0, 1, 2, 3} ELSE {1}) :
          LET i == images[r]
              p == IF PackedFormat(i.ty) THEN 0 ELSE pm
              t == Result(i, w, h, p, scalers[s])
          IN /\ images' = [images EXCEPT ![to] = [i EXCEPT !.w = w, !.h = h, !.term = t]]
             /\ done' = Append(done, Completed(s, r, to, i, w, h, p, t))
             /\ Say(CallAct(s, r, to, i, w, h, p, par))
             /\ UNCHANGED scalers

\* par: how many threads make the call at once; 0: one does, while other threads make other calls on other scalers

\* the latest call again, after a new picture of the same size has taken the place of the old one
Again == Wide /\ done # <<>> /\ \E kind \in Pick(Kinds), seed \in Pick(1..3) :
          LET d == done[Len(done)]
              i == Picture(d.img.ty, d.img.n, d.img.bd, d.img.w, d.img.h, kind, seed)
              t == Result(i, d.w, d.h, d.pm, scalers[d.sc])
          IN /\ Takes(d.sc, i)
             /\ images' = [images EXCEPT ![d.reg] = i, ![d.to] = [i EXCEPT !.w = d.w, !.h = d.h, !.term = t]]
             /\ done' = Append(done, Completed(d.sc, d.reg, d.to, i, d.w, d.h, d.pm, t))
             /\ acts' = acts \o << LoadAct(d.reg, i, kind, seed), CallAct(d.sc, d.reg, d.to, i, d.w, d.h, d.pm, 1) >>
             /\ UNCHANGED scalers

\* a call that must be refused and must leave no trace
Fail == \E s \in Pick(All) : \E r \in Pick(Used(s)), k \in Pick({"zero", "short", "stride", "depth"}) :
          /\ Say([op |-> "fail", sc |-> s, api |-> scalers[s].api, tr |-> scalers[s].tr, kind |-> k, ty |-> images[r].ty, n |-> images[r].n, bd |-> images[r].bd, sw |-> images[r].w, sh |-> images[r].h])
          /\ UNCHANGED <<scalers, images, done>>

\* an earlier call again, on a fresh scaler that has the settings the model remembers
Still(d) == \E r \in Regs : images[r] = d.img
Probe == \E k \in Pick({k \in 1..Len(done) : Still(done[k])}) :
          LET d == done[k] IN
          /\ Say([op |-> "probe", f |-> d.set.f, wl |-> d.set.wl, pol |-> d.set.pol, api |-> d.set.api, tr |-> d.set.tr, reg |-> CHOOSE r \in Regs : images[r] = d.img,
                  ty |-> d.img.ty, n |-> d.img.n, bd |-> d.img.bd, sw |-> d.img.w, sh |-> d.img.h, dw |-> d.w, dh |-> d.h, pm |-> d.pm])
          /\ UNCHANGED <<scalers, images, done>>

Act == Len(acts) < Depth /\ (New \/ NewColour \/ SetPolicy \/ SetStrategy \/ CopyScaler \/ Load \/ Call \/ Fail \/ Probe
                              \/ (Wide /\ (Call \/ Call \/ Call \/ Again \/ Again \/ Again \/ Probe \/ Probe \/ Probe)))
Ended == Len(acts) > 0 /\ acts[Len(acts)].op = "end"
Finish == /\ Wide /\ Len(acts) >= Depth /\ ~Ended /\ PrintT("PLAN " \o ToJson(acts))
          /\ acts' = Append(acts, [op |-> "end"]) /\ UNCHANGED <<scalers, images, done>>
Next == Act \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- the design by itself ---------------------------------------------------
\* equal terms name equal pictures: a term has one size, format and depth
Terms == \A i \in 1..Len(done), j \in 1..Len(done) :
            done[i].term = done[j].term => done[i].w = done[j].w /\ done[i].h = done[j].h /\ done[i].img.ty = done[j].img.ty /\ done[i].img.n = done[j].img.n
\* settings change by settings operations only; refused calls and probes change nothing
Quiet == [][ LET k == acts'[Len(acts')].op IN
             /\ k \in {"call", "fail", "probe", "load"} => scalers' = scalers
             /\ k \in {"fail", "probe"} => images' = images /\ done' = done
             /\ k = "copy" => \E s \in Names, t \in Names : s # t /\ scalers'[t] = scalers[s] /\ scalers'[s] = scalers[s] ]_vars
================================================================================
