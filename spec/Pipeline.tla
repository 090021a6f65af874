--------------------------------- MODULE Pipeline ---------------------------------
(***************************************************************************)
(* How a resize runs: a sequence of passes, each a set of units of work     *)
(* (single rows, or groups of four rows) that the threads of a pool take    *)
(* and complete row by row in any order; a pass begins when the one before  *)
(* has ended.  One thread is the caller alone.                              *)
(*                                                                         *)
(* Passes: "assoc" multiplies colours by alpha into a fresh image, "vert"   *)
(* convolves columns, "horz" rows, "pick" is Nearest, "copy" the copy for   *)
(* equal sizes, "disassoc" divides the destination by alpha in place.       *)
(*                                                                         *)
(* A row is a symbolic term, so that the model shows which rows a result    *)
(* row was computed from.  What must hold: whatever the schedule, the       *)
(* destination is Expected, every row of every pass is written once, by one *)
(* thread, from rows that are complete, and nothing is ever written twice.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxH,        \* heights 1 .. MaxH
          MaxThreads,
          Fault        \* "none", or a deliberate mistake: the model must notice it

VARIABLES cfg,         \* the call
          pass,        \* index of the pass that runs
          todo,        \* its units that nobody has taken
          busy,        \* thread -> rows it still has to write ({} : idle)
          img          \* image -> row -> term
vars == <<cfg, pass, todo, busy, img>>

Blank == <<"blank">>
Kinds == {"horz", "vert", "both", "pick", "copy"}

\* the passes of a call
Passes(c) ==
    LET core == CASE c.kind = "horz" -> <<"horz">>
                  [] c.kind = "vert" -> <<"vert">>
                  [] c.kind = "both" -> <<"vert", "horz">>
                  [] OTHER -> << c.kind >>
    IN IF c.alpha THEN <<"assoc">> \o core \o <<"disassoc">> ELSE core

\* where a pass reads and writes; a pass after the last convolution works in place
Source(c, k) ==
    LET p == Passes(c) IN
    CASE p[k] = "disassoc" -> "dst"
      [] k = 1 -> "src"
      [] p[k - 1] = "assoc" -> "assoc"
      [] OTHER -> "mid"
Target(c, k) ==
    LET p == Passes(c) IN
    CASE p[k] = "assoc" -> "assoc"
      [] p[k] = "vert" /\ c.kind = "both" -> "mid"
      [] OTHER -> "dst"
Height(c, image) == IF image \in {"src", "assoc"} THEN c.sh ELSE c.dh

\* the rows a vertical pass reads for output row y: a window about the scaled position
Window(c, y) ==
    LET m == (y * c.sh) \div c.dh
    IN { r \in 1..c.sh : r >= m /\ r <= m + 1 + (c.sh \div c.dh) }
Needs(c, k, y) ==
    LET p == Passes(c)[k] IN
    CASE p = "vert" -> Window(c, y)
      [] p = "pick" -> { ((y - 1) * c.sh) \div c.dh + 1 }
      [] OTHER -> {y}

\* units: groups of four rows for the rows that fill one, single rows after them
Units(c, k) ==
    LET h == Height(c, Target(c, k))
        g == IF Passes(c)[k] = "horz" THEN c.group ELSE 1
        full == h \div g
        rest == IF Fault = "dropped_rest" /\ g > 1 THEN {} ELSE { {y} : y \in (g * full + 1)..h }
    IN { ((i - 1) * g + 1)..(i * g) : i \in 1..full } \cup rest

Term(c, k, y, read) == << Passes(c)[k], y, read >>
Compute(c, k, y, im) == Term(c, k, y, [r \in Needs(c, k, y) |-> im[Source(c, k)][r]])

\* the result as a function of the source alone
RECURSIVE Run(_, _, _)
Run(c, k, im) ==
    IF k > Len(Passes(c)) THEN im
    ELSE Run(c, k + 1, [im EXCEPT ![Target(c, k)] = [y \in 1..Height(c, Target(c, k)) |-> Compute(c, k, y, im)]])
Start(c) == [ src |-> [y \in 1..c.sh |-> <<"source", y>>],
              assoc |-> [y \in 1..c.sh |-> Blank], mid |-> [y \in 1..c.dh |-> Blank],
              dst |-> [y \in 1..c.dh |-> Blank] ]
Expected(c) == Run(c, 1, Start(c)).dst

Calls == { c \in [sh : 1..MaxH, dh : 1..MaxH, kind : Kinds, alpha : BOOLEAN, group : {1, 4}, threads : 1..MaxThreads] :
             /\ c.kind \in {"horz", "copy"} <=> c.sh = c.dh
             /\ c.kind \in {"copy", "pick"} => ~c.alpha
             /\ c.kind \in {"copy", "pick", "vert"} => c.group = 1 }

Threads == 1..cfg.threads
Idle == [t \in 1..MaxThreads |-> {}]
Init == /\ cfg \in Calls /\ pass = 1 /\ todo = Units(cfg, 1) /\ busy = Idle /\ img = Start(cfg)

Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Take(t) == /\ busy[t] = {} /\ todo # {}
           /\ \E u \in todo : todo' = todo \ {u} /\ busy' = [busy EXCEPT ![t] = u]
           /\ UNCHANGED <<cfg, pass, img>>
Line(t) == /\ busy[t] # {}
           /\ LET y == Least(busy[t]) IN
                /\ img' = [img EXCEPT ![Target(cfg, pass)][y] = Compute(cfg, pass, y, img)]
                /\ busy' = [busy EXCEPT ![t] = @ \ {y}]
           /\ UNCHANGED <<cfg, pass, todo>>
\* the next pass begins when every unit is complete
Quiet == IF Fault = "no_barrier" THEN todo = {} ELSE todo = {} /\ busy = Idle
Barrier == /\ Quiet /\ pass < Len(Passes(cfg))
           /\ pass' = pass + 1
           /\ todo' = Units(cfg, pass + 1)
           /\ UNCHANGED <<cfg, busy, img>>
Next == (\E t \in Threads : Take(t) \/ Line(t)) \/ Barrier
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == pass = Len(Passes(cfg)) /\ todo = {} /\ busy = Idle

\* ---- what must hold ---------------------------------------------------------
Result == Ended => img.dst = Expected(cfg)
SourceKept == img.src = Start(cfg).src
\* no two threads own one row
Owners == \A s \in Threads, t \in Threads : s # t => busy[s] \cap busy[t] = {}
\* rows that are read are complete: they are not being written
Complete == Source(cfg, pass) # Target(cfg, pass) =>
              \A t \in Threads : \A y \in busy[t] : \A r \in Needs(cfg, pass, y) : img[Source(cfg, pass)][r] # Blank
Ends == <>Ended
Once == [][ \A y \in 1..cfg.dh : img.dst[y] # img'.dst[y] => img.dst[y] = Blank \/ Passes(cfg)[pass] = "disassoc" ]_vars
================================================================================
