-------------------------------- MODULE StoresMC --------------------------------
(***************************************************************************)
(* Stores by itself: all short histories of small containers (model         *)
(* checking), and random longer ones that are printed as plans for the      *)
(* driver (simulation).                                                     *)
(***************************************************************************)
EXTENDS Stores, Json

CONSTANTS Depth, Wide       \* operations of a history; whether to use the sizes of the simulation
VARIABLES made, acts
Pick(S) == IF Wide /\ S # {} THEN {RandomElement(S)} ELSE S     \* simulation: one successor of each kind
vars == <<stores, made, acts>>

Sizes == IF Wide THEN 0..5 ELSE 1..2
Channels == IF Wide THEN 1..4 ELSE {1, 2}
Types == IF Wide THEN {"u8", "u16", "f32", "f16"} ELSE {"u8"}
Extra == IF Wide THEN {-3, -1, 0, 0, 1, 4} ELSE {-1, 0, 1}
Pads == IF Wide THEN {0, 1, 3, 7} ELSE {0, 1}
Depths == IF Wide THEN {0, 8, 10, 16, 77} ELSE {0, 10}

Init == /\ made = [ctor |-> ""] /\ acts = <<>> /\ a = Nothing /\ b = Nothing /\ unit = 1 /\ home = <<>>

Construct ==
    /\ made.ctor = ""
    /\ \E ty \in Pick(Types), mut \in Pick({0, 1}), w \in Pick(Sizes), h \in Pick(Sizes), ch \in Pick(Channels), seed \in Pick(1..2) :
       LET u == IF ty \in {"f32", "f16"} THEN 256 ELSE 1
           m == mut = 1
           rec(c, len, stride, depth) == [ctor |-> c, ty |-> ty, mut |-> mut, w |-> w, h |-> h, n |-> ch, len |-> len,
                                          fill |-> seed, stride |-> stride, depth |-> depth]
       IN /\ unit' = u
          /\ \/ \E c \in Pick({"new", "borrow", "from_slice"}), x \in Pick(Extra) :
                  LET len == IF w * h * ch + x < 0 THEN 0 ELSE w * h * ch + x
                  IN /\ made' = rec(c, len, 0, 0)
                     /\ home' = Filled(seed, len, u)
                     /\ a' = IF ~Fits(w, h, ch, len) THEN Nothing
                             ELSE LET s == Made(w, h, ch, Filled(seed, len, u), m) IN IF c = "new" THEN s ELSE Lend(s)
             \/ made' = rec("alloc", 0, 0, 0) /\ a' = Alloc(w, h, ch, 0, m) /\ home' = <<>>
             \/ \E d \in Pick(Depths) : made' = [rec("depth", 0, 0, d) EXCEPT !.mut = 1] /\ a' = Alloc(w, h, ch, d, TRUE) /\ home' = <<>>
             \/ \E p \in Pick(Pads), d \in Pick(Depths) :
                  LET s == IF p = 0 THEN 0 ELSE w * ch + p
                      len == (w * ch + p) * h
                  IN /\ w > 0 /\ h > 0 /\ made' = rec("parts", len, s, d)
                     /\ a' = Parts(w, h, ch, s, d, Filled(seed, len, u), m) /\ home' = Filled(seed, len, u)
    /\ UNCHANGED <<b, acts>>

Step(op, n) == /\ made.ctor \notin {"", "end"} /\ Len(acts) < Depth
               /\ Do(op, n) /\ acts' = Append(acts, <<op, n>>) /\ UNCHANGED made
Values == IF Wide THEN {0, 1, 128, 255} ELSE {9}
Operate ==
    \/ \E i \in Pick(0..(Len(a.data) - 1)), v \in Pick(Values) : Step("wa", <<i, v>>)
    \/ \E i \in Pick(0..(Len(b.data) - 1)), v \in Pick(Values) : Step("wb", <<i, v>>)
    \/ \E d \in Pick(Depths) : Step("da", <<d>>)
    \/ Step("copied", <<>>) \/ Step("freeze", <<>>) \/ Step("swap", <<>>)
    \/ \E p \in Pick(Pads), seed \in Pick(3..4), d \in Pick(Depths) : Step("into", << IF p = 0 THEN 0 ELSE Row(a) + p, seed, d >>)
\* the end of a history: its plan is printed
Ended == made.ctor \notin {"", "end"} /\ (Len(acts) = Depth \/ ~Exists(a))
Finish == /\ Wide /\ Ended
          /\ PrintT("PLAN " \o ToJson([made |-> made, acts |-> acts]))
          /\ made' = [ctor |-> "end"] /\ UNCHANGED <<stores, acts>>
Next == Construct \/ Operate \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what must hold in every history ---------------------------------------
WholeBuffers == Whole(a) /\ Whole(b)
\* what is written through a lent container is in the caller's buffer, and nothing else is
AtHome == (a.lent => a.data = home) /\ (b.lent => b.data = home) /\ ~(a.lent /\ b.lent)
Home == [][ home' # home => home = <<>> \/ (acts' # acts /\ acts'[Len(acts')][1] = "wa" /\ a.lent) \/ (acts' # acts /\ acts'[Len(acts')][1] = "wb" /\ b.lent) ]_vars
\* a write changes one container only
Apart == [][ /\ (Len(acts') > Len(acts) /\ acts'[Len(acts')][1] = "wa" => b' = b)
             /\ (Len(acts') > Len(acts) /\ acts'[Len(acts')][1] = "wb" => a' = a) ]_vars
\* a copy shows the same pixels in the same places
Faithful == [][ Len(acts') > Len(acts) /\ acts'[Len(acts')][1] \in {"copied", "freeze"} => Report(b') = Report(a) ]_vars
Visible(s) == [k \in 1..(Row(s) * s.h) |-> s.data[((k - 1) \div Row(s)) * Safe(s) + ((k - 1) % Row(s)) + 1]]
SamePicture == [][ Len(acts') > Len(acts) /\ acts'[Len(acts')][1] = "into" /\ Row(a) > 0 => Visible(b') = Visible(a) ]_vars

================================================================================
