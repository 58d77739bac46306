------------------------------ MODULE Slicing -------------------------------
(* What indexing a map means. One axis of a map is described relative to the *)
(* axis of the map it was originally cut from by                             *)
(*    n : number of pixels                                                   *)
(*    d, e : pixel j (0-based) holds the data of base pixel  d + e*j         *)
(*    a, s : pixel j is centred at base pixel coordinate  a/2 + s*j          *)
(* A slice with a step other than +-1 makes each new pixel stand for a block *)
(* of |step| old ones: it keeps the data of the first pixel of the block and *)
(* is centred on the middle of the block, so pixel edges stay where they     *)
(* were. A missing slice entry is written None.                              *)
EXTENDS Common
None == 999

Base(n) == [n |-> n, d |-> 0, e |-> 1, a |-> 0, s |-> 1]
StepOf(sl) == IF sl[3] = None THEN 1 ELSE sl[3]
StartOf(sl, n) ==
  IF sl[1] = None THEN (IF StepOf(sl) > 0 THEN 0 ELSE n - 1)
  ELSE LET v == IF sl[1] < 0 THEN sl[1] + n ELSE sl[1]
       IN  IF StepOf(sl) > 0 THEN Clip(v, 0, n) ELSE Clip(v, -1, n - 1)
StopOf(sl, n) ==
  IF sl[2] = None THEN (IF StepOf(sl) > 0 THEN n ELSE -1)
  ELSE LET v == IF sl[2] < 0 THEN sl[2] + n ELSE sl[2]
       IN  IF StepOf(sl) > 0 THEN Clip(v, 0, n) ELSE Clip(v, -1, n - 1)
LenOf(sl, n) ==
  LET st == StepOf(sl)
      w  == IF st > 0 THEN StopOf(sl, n) - StartOf(sl, n) ELSE StartOf(sl, n) - StopOf(sl, n)
  IN  IF w <= 0 THEN 0 ELSE CDiv(w, Abs(st))

Cut(ax, sl) ==
  LET st == StepOf(sl)
      b  == StartOf(sl, ax.n)
  IN  [n |-> LenOf(sl, ax.n),
       d |-> ax.d + ax.e * b,
       e |-> ax.e * st,
       a |-> ax.a + 2 * ax.s * b + ax.s * (st - Sgn(st)),
       s |-> ax.s * st]
RECURSIVE CutAll(_, _)
CutAll(ax, sls) == IF sls = <<>> THEN ax ELSE CutAll(Cut(ax, Head(sls)), Tail(sls))

DataIdx(ax) == [j \in 1..ax.n |-> ax.d + ax.e * (j - 1)]
\* centre of pixel j (0-based) in half base pixels; edges likewise
Centre2(ax, j) == ax.a + 2 * ax.s * j
Lo2(ax, j) == Centre2(ax, j) - Abs(ax.s)
Hi2(ax, j) == Centre2(ax, j) + Abs(ax.s)

(* Flat data of a product of index lists into an array of shape dims *)
RECURSIVE Pick(_, _, _, _)
Pick(lists, dims, k, off) ==
  IF k > Len(lists) THEN <<off>>
  ELSE Cat([j \in 1..Len(lists[k]) |-> Pick(lists, dims, k + 1, off * dims[k] + lists[k][j])])
PickAll(lists, dims) == Pick(lists, dims, 1, 0)
=============================================================================
