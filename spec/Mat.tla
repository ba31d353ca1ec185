-------------------------------- MODULE Mat --------------------------------
(* Integer vectors (sequences) and matrices (sequences of rows).           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Sum(v)        == FoldLeft(LAMBDA a, b : a + b, 0, v)
Dot(u, v)     == Sum([i \in 1..Len(u) |-> u[i] * v[i]])
VAdd(u, v)    == [i \in 1..Len(u) |-> u[i] + v[i]]
VSub(u, v)    == [i \in 1..Len(u) |-> u[i] - v[i]]
VScale(k, u)  == [i \in 1..Len(u) |-> k * u[i]]
VZero(n)      == [i \in 1..n |-> 0]
MAdd(A, B)    == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B)    == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MScale(k, A)  == [i \in 1..Len(A) |-> VScale(k, A[i])]
MZero(m, n)   == [i \in 1..m |-> VZero(n)]
MZeroLike(A)  == [i \in 1..Len(A) |-> VZero(Len(A[i]))]
Transp(A, n)  == [j \in 1..n |-> [i \in 1..Len(A) |-> A[i][j]]]
\* rows of X mapped through W (out x in):  X W^T
XWt(X, W)     == [k \in 1..Len(X) |-> [i \in 1..Len(W) |-> Dot(W[i], X[k])]]
\* D W : rows of D (over outputs) mapped back to inputs
DW(D, W, n)   == [k \in 1..Len(D) |-> [j \in 1..n |->
                     Sum([i \in 1..Len(W) |-> W[i][j] * D[k][i]])]]
\* sum_k d_k x_k^T
OuterSum(D, X, m, n) == [i \in 1..m |-> [j \in 1..n |->
                     Sum([k \in 1..Len(X) |-> D[k][i] * X[k][j]])]]
ColSum(D, m)  == [i \in 1..m |-> Sum([k \in 1..Len(D) |-> D[k][i]])]
Iota(n)       == [i \in 1..n |-> i]
MaxI(a, b)    == IF a > b THEN a ELSE b
MinI(a, b)    == IF a < b THEN a ELSE b
AbsI(a)       == IF a < 0 THEN -a ELSE a
Clip(x, l, u) == IF x < l THEN l ELSE IF x > u THEN u ELSE x
Sgn(x)        == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Flat(A)       == FoldLeft(LAMBDA a, b : a \o b, <<>>, A)
MaxSeq(v)     == FoldLeft(MaxI, v[1], v)
MinSeq(v)     == FoldLeft(MinI, v[1], v)
\* floor and rounding division (b > 0)
FDiv(a, b)    == a \div b
TDiv(a, b)    == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Set2Seq(S)    == SetToSeq(S)
=============================================================================
