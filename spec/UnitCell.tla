------------------------------ MODULE UnitCell ------------------------------
(***************************************************************************)
(* Crosspoints made of several devices.  kinds:                            *)
(*   "vec"  VectorUnitCell, weight = sum of gam[k] * device k / gd         *)
(*          pol: "all", "fixed", "seq", "rand" (which device is updated)   *)
(*   "ref"  ReferenceUnitCell, device minus reference (pol "fixed")        *)
(*   "one"  OneSidedUnitCell, g+ (second device) - g- (first device),      *)
(*          each only ever increased by updates and refreshed every re     *)
(*          vectors (re = 0: never)                                        *)
(* Devices are in integer multiples of the unit, device k moves by u[k]    *)
(* units per pulse, bounded to lo[k]..hi[k]; learning rate K: K pulses per *)
(* unit of outer product.  first is the first_update_idx.                  *)
(* one: up4, lo4 thresholds in quarters, mb (units in mini-batch), inv     *)
(* (negative device mirrors the positive one)                              *)
(***************************************************************************)
EXTENDS Mat, TLC

N(c) == Len(c.gam)
Zero(c) == MZero(c.D, c.X)
Map2(c, F(_, _)) == [i \in 1..c.D |-> [j \in 1..c.X |-> F(i, j)]]
Hi(c, k) == IF c.inv /\ k = 2 THEN -c.lo[1] ELSE c.hi[k]
Lo(c, k) == IF c.inv /\ k = 2 THEN -c.hi[1] ELSE c.lo[k]
ClipM(c, k, M) == Map2(c, LAMBDA i, j : Clip(M[i][j], Lo(c, k), Hi(c, k)))
W(c, s) == Map2(c, LAMBDA i, j : Sum([k \in 1..N(c) |-> c.gam[k] * s.A[k][i][j]]))

SetW(c, s, w) ==
  IF c.kind = "one" THEN
    [s EXCEPT !.A = <<ClipM(c, 1, Map2(c, LAMBDA i, j : MaxI(-w[i][j], 0))),
                      ClipM(c, 2, Map2(c, LAMBDA i, j : MaxI(w[i][j], 0)))>>, !.cnt = 0, !.idx = c.first, !.y = <<>>]
  ELSE [s EXCEPT !.A = [k \in 1..N(c) |-> IF c.pol = "fixed" /\ k # s.idx + 1 THEN @[k] ELSE ClipM(c, k, w)],
                 !.cnt = 0, !.idx = IF c.pol = "fixed" THEN @ ELSE c.first, !.y = <<>>]

InitSt(c) == SetW(c, [A |-> [k \in 1..N(c) |-> Zero(c)], idx |-> c.first, cnt |-> 0, K |-> c.K, y |-> <<>>], c.W0)

(* ---------------------------------------------------------------- update *)
Pulses(s, x, d, i, j) == -(s.K * x[j] * d[i])
Add(c, k, A, x, d, s) == ClipM(c, k, Map2(c, LAMBDA i, j : A[i][j] + c.u[k] * Pulses(s, x, d, i, j)))

Crit(c, p, m) == IF p > m THEN 4 * p > c.up4 * c.hi[2] /\ 4 * m > c.lo4 * c.hi[1]
                 ELSE 4 * p > c.lo4 * c.hi[2] /\ 4 * m > c.up4 * c.hi[1]
\* overwrites saturated pairs with their difference
Refresh(c, A) == <<
    Map2(c, LAMBDA i, j : LET m == A[1][i][j] p == A[2][i][j] IN
         IF Crit(c, p, m) THEN MinI(MaxI(m - p, 0), Hi(c, 1)) ELSE m),
    Map2(c, LAMBDA i, j : LET m == A[1][i][j] p == A[2][i][j] IN
         IF Crit(c, p, m) THEN MinI(MaxI(p - m, 0), Hi(c, 2)) ELSE p)>>

One(c, s, x, d, B) ==
  IF c.kind = "one" THEN
    LET p(i, j) == Pulses(s, x, d, i, j)
        A == <<ClipM(c, 1, Map2(c, LAMBDA i, j : s.A[1][i][j] + c.u[1] * MaxI(-p(i, j), 0))),
               ClipM(c, 2, Map2(c, LAMBDA i, j : s.A[2][i][j] + c.u[2] * MaxI(p(i, j), 0)))>>
        n == s.cnt + 1
        e == c.re * (IF c.mb THEN B ELSE 1)
    IN {[s EXCEPT !.A = IF e > 0 /\ n % e = 0 THEN Refresh(c, A) ELSE A, !.cnt = n]}
  ELSE
    LET idxs == CASE c.pol = "seq" -> {(s.idx + 1) % N(c)}
                  [] c.pol = "rand" -> 0..(N(c) - 1)
                  [] OTHER -> {s.idx}
    IN {[s EXCEPT !.A = [k \in 1..N(c) |-> IF c.pol = "all" \/ k = m + 1 THEN Add(c, k, @[k], x, d, s) ELSE @[k]],
                  !.idx = m, !.cnt = @ + 1] : m \in idxs}

RECURSIVE Update(_, _, _, _, _)
Update(c, S, X, Dv, k) == IF k > Len(X) THEN S
    ELSE Update(c, UNION {One(c, s, X[k], Dv[k], Len(X)) : s \in S}, X, Dv, k + 1)

Quiet(s) == [s EXCEPT !.y = <<>>]
\* columns from..from+n-1, wrapping around
InCols(c, a, j) == \E k \in 0..(a.n - 1) : (a.from + k) % c.X = j - 1
Step(c, s, a) ==
  CASE a.op = "update" -> IF s.K = 0 THEN {Quiet(s)} ELSE Update(c, {Quiet(s)}, a.x, a.d, 1)
    [] a.op = "lr"     -> {[Quiet(s) EXCEPT !.K = a.v]}
    [] a.op = "set"    -> {SetW(c, s, a.w)}
    [] a.op = "idx"    -> {IF c.kind = "one" THEN Quiet(s) ELSE [Quiet(s) EXCEPT !.idx = a.v]}
    [] a.op = "reset"  -> {[Quiet(s) EXCEPT !.A = [k \in 1..N(c) |-> Map2(c, LAMBDA i, j : IF InCols(c, a, j) THEN 0 ELSE @[k][i][j])]]}
    [] a.op = "fwd"    -> {[s EXCEPT !.y = XWt(a.x, W(c, s))]}
    [] a.op = "bwd"    -> {[s EXCEPT !.y = DW(a.d, W(c, s), c.X)]}

Obs(c, s) == [W |-> W(c, s), A |-> s.A, idx |-> s.idx, y |-> s.y]

(* ------------------------------------------------------------ properties *)
Inv(c, s) ==
    /\ \A k \in 1..N(c) : \A i \in 1..c.D : \A j \in 1..c.X : s.A[k][i][j] \in Lo(c, k)..Hi(c, k)
    /\ s.idx \in 0..(N(c) - 1)
    /\ c.kind = "one" => \A k \in 1..2 : \A i \in 1..c.D : \A j \in 1..c.X : s.A[k][i][j] >= 0
StepOk(c, s, a, t) ==
    \* at most one device of a single device policy changes per vector; never one which is not selected
    /\ (a.op = "update" /\ c.pol = "fixed" /\ c.kind # "one") => \A k \in 1..N(c) : k # s.idx + 1 => t.A[k] = s.A[k]
    /\ (a.op = "update" /\ Len(a.x) = 1 /\ c.pol \in {"seq", "rand"} /\ c.kind = "vec") =>
          \A k \in 1..N(c) : k # t.idx + 1 => t.A[k] = s.A[k]
    \* one-sided devices never decrease unless refreshed
    /\ (a.op = "update" /\ c.kind = "one" /\ c.re = 0) =>
          \A k \in 1..2 : \A i \in 1..c.D : \A j \in 1..c.X : t.A[k][i][j] >= s.A[k][i][j]
    \* a refresh alone keeps the weight
    /\ c.kind = "one" => LET r == [s EXCEPT !.A = Refresh(c, s.A)] IN W(c, r) = W(c, s)
    /\ (a.op = "update" /\ s.K = 0) => t.A = s.A
    /\ a.op \in {"lr", "fwd", "bwd", "idx"} => t.A = s.A /\ t.cnt = s.cnt

(* --------------------------------------------------------- bounded model *)
Base == [name |-> "all", kind |-> "vec", X |-> 2, D |-> 2, gam |-> <<1, 1>>, gd |-> 2, u |-> <<1, 1>>, lo |-> <<-20, -20>>,
         hi |-> <<20, 20>>, pol |-> "all", first |-> 0, re |-> 0, up4 |-> 3, lo4 |-> 1, mb |-> FALSE, inv |-> FALSE, K |-> 1,
         W0 |-> <<<<1, -2>>, <<3, 25>>>>]
Cfgs0 == {
   Base, [Base EXCEPT !.name = "fixed", !.pol = "fixed", !.gam = <<2, -1, 1>>, !.gd = 1, !.u = <<1, 2, 3>>, !.lo = <<-9, -20, -7>>,
                      !.hi = <<20, 7, 8>>, !.first = 2],
   [Base EXCEPT !.name = "seq", !.pol = "seq", !.gam = <<1, 2, 4>>, !.gd = 1, !.u = <<1, 1, 1>>, !.lo = <<-9, -20, -7>>,
                      !.hi = <<20, 7, 8>>, !.first = 1, !.X = 3, !.D = 1, !.W0 = <<<<1, 2, -5>>>>],
   [Base EXCEPT !.name = "ref", !.kind = "ref", !.pol = "fixed", !.gam = <<1, -1>>, !.gd = 1],
   [Base EXCEPT !.name = "one", !.kind = "one", !.gam = <<-1, 1>>, !.gd = 1, !.re = 2, !.lo = <<-8, -8>>, !.hi = <<8, 8>>, !.K = 2],
   [Base EXCEPT !.name = "onemb", !.kind = "one", !.gam = <<-1, 1>>, !.gd = 1, !.re = 1, !.mb = TRUE, !.up4 = 2, !.lo4 = 0,
                !.lo = <<-8, -8>>, !.hi = <<6, 6>>, !.X = 3, !.D = 1, !.W0 = <<<<1, 2, -5>>>>],
   [Base EXCEPT !.name = "oneinv", !.kind = "one", !.gam = <<-1, 1>>, !.gd = 1, !.inv = TRUE, !.lo = <<-8, -8>>, !.hi = <<8, 8>>]}
VX(c, k) == [j \in 1..c.X |-> IF (j + k) % 3 = 0 THEN 0 ELSE IF (j + k) % 3 = 1 THEN 1 ELSE -1]
VD(c, k) == [j \in 1..c.D |-> IF (j + k) % 4 = 0 THEN 0 ELSE IF (j + k) % 2 = 1 THEN 1 ELSE -1]
Acts(c, s) ==
   {[op |-> "update", x |-> <<VX(c, 0)>>, d |-> <<VD(c, 1)>>],
    [op |-> "update", x |-> <<VX(c, 1), VX(c, 0)>>, d |-> <<VScale(2, VD(c, 0)), VD(c, 2)>>],
    [op |-> "update", x |-> <<VX(c, 2), VX(c, 0), VX(c, 1)>>, d |-> <<VD(c, 0), VScale(-2, VD(c, 0)), VD(c, 3)>>],
    [op |-> "lr", v |-> IF s.K = 0 THEN 2 ELSE 0],
    [op |-> "idx", v |-> (s.idx + 1) % N(c)],
    [op |-> "set", w |-> Map2(c, LAMBDA i, j : 6 * j - 7 * i)],
    [op |-> "reset", from |-> c.X - 1, n |-> 2],
    [op |-> "bwd", d |-> <<VD(c, 0), VD(c, 1)>>],
    [op |-> "fwd", x |-> <<VX(c, 0), VX(c, 1)>>]}
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
