----------------------------- MODULE TraceBase ------------------------------
(* The recorded behaviour of the real code: a sequence of records            *)
(*   i: number, k: kind of step, a: arguments, o: what was observed,         *)
(*   x: the exception the call ended with, or "".                            *)
(* The modules extending this one define Failing(r), the set of names of the *)
(* clauses of the specification that record r breaks, and check every record.*)
EXTENDS Common, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)
Report(r, F) == IF F = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(r.i) \o " " \o ToString(F))
(* A method of a map is the function of the same name applied to the map     *)
(* and its geometry: structure, types, values, coordinates.                  *)
Deleg(r) == IF r.x # "" THEN {"raised"} ELSE
  (IF r.o.m.n # r.o.f.n THEN {"method_shape"} ELSE {}) \cup (IF r.o.m.t # r.o.f.t THEN {"method_type"} ELSE {})
  \cup (IF Len(r.o.m.v) # Len(r.o.f.v) \/ \E k \in 1..Len(r.o.f.v) : Abs(r.o.m.v[k] - r.o.f.v[k]) > 2 THEN {"method_values"} ELSE {})
  \cup (IF Len(r.o.m.w) # Len(r.o.f.w) \/ \E k \in 1..Len(r.o.f.w) : Abs(r.o.m.w[k] - r.o.f.w[k]) > 1 THEN {"method_coordinates"} ELSE {})
TInit == i \in 1..Min2(16, NTrace)
=============================================================================
