-------------------------------- MODULE Requests --------------------------------
(***************************************************************************)
(* A resize request as the public interface sees it, and which requests    *)
(* are well formed.                                                        *)
(*                                                                         *)
(* A request is a record (an event of a trace extends it):                 *)
(*   ty            "u8" "u16" "f32" "f16" or a packed 10 bit format         *)
(*   n             channels                                                *)
(*   f, wl, pm     filter number, workload strategy, alpha association     *)
(*   sw, sh        source size, ss its stride, sl its buffer length         *)
(*   dw, dh        destination size, ds its stride, dl its buffer length    *)
(*   bd            bit depth of the destination                            *)
(* Strides and lengths count elements (bytes for the packed formats).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d

Packed(e) == e.ty \in {"ar30h", "ar30n", "ra30h", "ra30n"}
\* components of a pixel in the buffer: bytes of a packed pixel, else channels
Unit(e) == IF Packed(e) THEN 4 ELSE e.n
Chan(e) == IF Packed(e) THEN 4 ELSE e.n

\* a stride of zero declares packed rows; the packed formats take strides literally
Stride(e, s, w) == IF s = 0 /\ ~Packed(e) THEN w * Unit(e) ELSE s
SS(e) == Stride(e, Get(e, "ss", e.sw * Unit(e)), e.sw)
DS(e) == Stride(e, Get(e, "ds", e.dw * Unit(e)), e.dw)
SL(e) == Get(e, "sl", SS(e) * e.sh)
DL(e) == Get(e, "dl", DS(e) * e.dh)
BD(e) == Get(e, "bd", 0)

ZeroDimension == 1
SourceTooLarge == 2
DestinationTooLarge == 3
BufferMismatch == 4
InvalidStride == 5
BadDepth == 6

\* the size of the source (destination) cannot be represented; such a request names no numbers
TooLarge(e, side) == Get(e, "big", "") = side

Mismatch(len, stride, w, h, n) ==
    "Image buffer len expected to be " \o ToString(stride * h) \o " [w(" \o ToString(w) \o ")*h("
    \o ToString(h) \o ")*channels(" \o ToString(n) \o ")] but received " \o ToString(len)
ShortStride(min, stride) ==
    "Stride must be at least " \o ToString(min) \o ", but received " \o ToString(stride)

\* every defect of the request with the message that describes it ("" : any message)
Defects(e) ==
    IF Get(e, "big", "") # "" THEN
        IF TooLarge(e, "s") THEN { <<SourceTooLarge, "">> } ELSE { <<DestinationTooLarge, "">> }
    ELSE
       { <<BufferMismatch, Mismatch(SL(e), SS(e), e.sw, e.sh, Chan(e))>> : z \in {z \in {0} : SL(e) # SS(e) * e.sh} }
       \cup { <<BufferMismatch, Mismatch(DL(e), DS(e), e.dw, e.dh, Chan(e))>> : z \in {z \in {0} : DL(e) # DS(e) * e.dh} }
       \cup { <<InvalidStride, ShortStride(e.sw * Unit(e), SS(e))>> : z \in {z \in {0} : SS(e) < e.sw * Unit(e)} }
       \cup { <<InvalidStride, ShortStride(e.dw * Unit(e), DS(e))>> : z \in {z \in {0} : DS(e) < e.dw * Unit(e)} }
       \cup { <<ZeroDimension, "">> : z \in {z \in {0} : 0 \in {e.sw, e.sh, e.dw, e.dh}} }
       \cup { <<BadDepth, "Bit depth must be in [1, 16] but got " \o ToString(BD(e))>>
                : z \in {z \in {0} : e.ty = "u16" /\ BD(e) \notin 1..16} }

WellFormed(e) == Defects(e) = {}

\* the outcome of a request: refused for a defect it has with nothing written, or done
Refused(e) == /\ e.res = "err"
              /\ \E d \in Defects(e) : e.code = d[1] /\ (d[2] # "" => e.msg = d[2])
              /\ e.unt /\ e.srcok
Outcome(e) == IF WellFormed(e) THEN e.res = "ok" ELSE Refused(e)
\* nothing but the visible destination changed
Contained(e) == e.res \in {"ok", "err"} /\ e.pad /\ e.srcok

SameSize(e) == e.sw = e.dw /\ e.sh = e.dh
================================================================================
