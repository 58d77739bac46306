------------------------------ MODULE InterpMC ------------------------------
(* Arrays of a few samples are built one sample at a time; every kernel and    *)
(* edge rule is checked on each of them.                                       *)
EXTENDS Interp
CONSTANTS NMax, Vals
VARIABLES arr
Init == arr = <<>>
Next == Len(arr) < NMax /\ \E v \in Vals : arr' = Append(arr, 1000 * v)
Kinds == {<<"spline", 1>>, <<"spline", 2>>, <<"spline", 3>>, <<"spline", 4>>, <<"spline", 5>>, <<"conv", 1>>, <<"conv", 3>>}
Borders == {"zero", "nearest", "cyclic", "mirror", "reflect"}
n == Len(arr)
One(b, p, k, c) == TapSum(Taps(k[1], k[2], b, n, p, FALSE), LAMBDA x : c[x + 1])
\* every rule maps onto a sample or to nothing, and leaves the samples themselves alone
Edges == n > 0 => \A b \in Borders : \A j \in (-3 * n)..(4 * n) : Edge(b, n, j) \in (-1)..(n - 1) /\ (Edge(b, n, j) = -1 => b = "zero") /\ (j \in 0..(n - 1) => Edge(b, n, j) = j)
Periods == n > 1 => \A j \in (-3 * n)..(3 * n) : Edge("cyclic", n, j + n) = Edge("cyclic", n, j) /\ Edge("mirror", n, -j) = Edge("mirror", n, j) /\ Edge("reflect", n, -1 - j) = Edge("reflect", n, j)
\* the weights of the samples around a position sum to one, and those of a derivative to zero
Partition == \A k \in Kinds : \A p \in 0..7 :
   LET t == Taps(k[1], k[2], "cyclic", 1, p, FALSE)
       d == Taps(k[1], k[2], "cyclic", 1, p, TRUE)
   IN  Abs(SumSeq([j \in 1..Len(t) |-> t[j][2]]) - WU) <= 3
       /\ (k = <<"spline", 5>> \/ (k[2] = 1 /\ p = 0) \/ Abs(SumSeq([j \in 1..Len(d) |-> d[j][2]])) <= 4)
\* interpolation passes through the samples, constants stay constant, and linear interpolation stays between its neighbours
Through == n > 1 => \A k \in Kinds : \A b \in {"cyclic", "mirror", "reflect"} : LET c == Coefs(arr, k[2], b) IN
   (k[1] = "spline" \/ k[2] <= 1 \/ TRUE) => \A j \in 0..(n - 1) : Abs(One(b, 8 * j, k, IF k[1] = "spline" THEN c ELSE arr) - arr[j + 1]) <= 8
Const == (n > 1 /\ \A j \in 1..n : arr[j] = arr[1]) => \A k \in Kinds : \A b \in {"cyclic", "mirror", "reflect"} : \A p \in -12..(8 * n + 12) :
   Abs(One(b, p, k, IF k[1] = "spline" THEN Coefs(arr, k[2], b) ELSE arr) - arr[1]) <= 10
Between == n > 1 => \A p \in 0..(8 * (n - 1) - 1) : LET f == p \div 8
                                                       v == One("nearest", p, <<"spline", 1>>, arr)
                                                   IN  Min2(arr[f + 1], arr[f + 2]) <= v /\ v <= Max2(arr[f + 1], arr[f + 2])
\* the derivative is the slope
Slope == n > 2 => \A k \in {<<"spline", 3>>, <<"spline", 4>>, <<"conv", 3>>} : \A p \in 1..(8 * n) :
   LET c == TLCEval(IF k[1] = "spline" THEN Coefs(arr, k[2], "cyclic") ELSE arr)
       d(q) == TapSum(Taps(k[1], k[2], "cyclic", n, q, TRUE), LAMBDA x : c[x + 1])
   IN  \* Simpson's rule over two steps of an eighth (exact for cubics; pieces join at whole samples)
       (p % 8 # 0 /\ (k[2] # 4 \/ p % 4 # 0)) => Abs((One("cyclic", p + 1, k, c) - One("cyclic", p - 1, k, c)) - RDiv(d(p - 1) + (4 * d(p)) + d(p + 1), 24)) <= 12
=============================================================================
