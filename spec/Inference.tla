----------------------------- MODULE Inference -----------------------------
(***************************************************************************)
(* Life of an inference tile: weights are written or trained, programmed   *)
(* into conductances (with a programming error), drift since then, and are *)
(* compensated in evaluation.                                              *)
(* W weights on the tile (integers, logical and analog alike)              *)
(* ref reference (target) weights, prog programmed weights, nu exponents   *)
(* determined at programming, nb baseline readout, al compensation [n, d]  *)
(* per output; nm noise model in use:                                      *)
(*  "uni" exact programming, each conductance drifts with 1 / (t + 1)      *)
(*  "half" every conductance is programmed to half of its target           *)
(*  "lo" / "hi" only half / full conductances drift (others keep)          *)
(*  "rand" programming noise: weights are not known (rnd)                  *)
(* conv: conductance converter (kind, conductance range gmin, gmax,        *)
(*  weights of the device pairs f, table g)                                *)
(* comp: "none", "global", "exact", "column" drift compensation            *)
(***************************************************************************)
EXTENDS Mat, TLC

Tab(c, F(_, _)) == [i \in 1..c.D |-> [j \in 1..c.X |-> F(i, j)]]
AllMax(c, W) == MaxSeq([i \in 1..c.D |-> MaxSeq([j \in 1..c.X |-> AbsI(W[i][j])])])
Mx(c, W) == MaxSeq([i \in 1..c.D |-> MaxSeq(W[i])])
Mn(c, W) == MinSeq([i \in 1..c.D |-> MinSeq(W[i])])
GRange(c) == c.conv.gmax - c.conv.gmin

(* ------------------------------------------------------- conductances --- *)
\* conductances of all devices, times the scale GS (to be integers)
Prod(f) == FoldLeft(LAMBDA a, b : a * b, 1, f)
GS(c, W) == IF c.conv.kind = "dev" THEN Mx(c, W) - Mn(c, W) ELSE AllMax(c, W) * Prod(c.conv.f)
LowG(c, k) == GRange(c) * Sum([m \in 1..(k - 1) |-> c.conv.f[m]])
\* device for w (sign included) of pair k of an n pair converter
PairG(c, W, k, w) ==
   LET mx == AllMax(c, W) R == GRange(c) P == Prod(c.conv.f)
       us == MaxI(w, 0) * Sum(c.conv.f) * R                  \* times mx
   IN Clip((us - LowG(c, k) * mx) * (P \div c.conv.f[k]) + c.conv.gmin * mx * P, c.conv.gmin * mx * P, c.conv.gmax * mx * P)
\* table lookup: g has n entries for weights from -mx to mx
TabAt(g, mx, w) ==
   LET n == Len(g) - 1 p == (w + mx) * n k == MinI(p \div (2 * mx), n - 1) r == p - 2 * mx * k
   IN (g[k + 1] * 2 * mx + (g[k + 2] - g[k + 1]) * r) \div 2
Conduct(c, W) ==
   IF GS(c, W) = 0 THEN <<>>
   ELSE CASE c.conv.kind = "dev" -> <<Tab(c, LAMBDA i, j : (W[i][j] - Mn(c, W)) * GRange(c) + c.conv.gmin * GS(c, W))>>
          [] c.conv.kind = "table" -> [k \in 1..Len(c.conv.g) |-> Tab(c, LAMBDA i, j : TabAt(c.conv.g[k], AllMax(c, W), W[i][j]) * Prod(c.conv.f))]
          [] OTHER -> [k \in 1..2 * Len(c.conv.f) |-> Tab(c, LAMBDA i, j : PairG(c, W, (k + 1) \div 2, IF k % 2 = 1 THEN W[i][j] ELSE -W[i][j]))]

\* weights when every conductance of weight [i, j] is multiplied with 1 / q
Quot(c, W, q) ==
   IF c.conv.kind # "dev" THEN Tab(c, LAMBDA i, j : TDiv(W[i][j], q[i][j]))
   ELSE LET mn == Mn(c, W) dl == Mx(c, W) - mn IN
        Tab(c, LAMBDA i, j : LET d == W[i][j] - mn IN
            mn + (d \div q[i][j]) - ((c.conv.gmin * (dl \div q[i][j]) * (q[i][j] - 1)) \div GRange(c)))
QuotOk(c, W, q) ==
   IF c.conv.kind # "dev" THEN \A i \in 1..c.D : \A j \in 1..c.X : AbsI(W[i][j]) % q[i][j] = 0
   ELSE LET mn == Mn(c, W) dl == Mx(c, W) - mn IN
        dl # 0 /\ \A i \in 1..c.D : \A j \in 1..c.X : (W[i][j] - mn) % q[i][j] = 0 /\ dl % q[i][j] = 0
                               /\ (c.conv.gmin * (dl \div q[i][j])) % GRange(c) = 0

(* --------------------------------------------------------- operations --- *)
Const(c, v) == Tab(c, LAMBDA i, j : v)
NuOf(c, nm, W) ==
   IF nm \in {"uni", "half", "rand"} THEN Const(c, 1)
   ELSE LET mx == AllMax(c, W) IN
        Tab(c, LAMBDA i, j : LET a == AbsI(W[i][j]) IN
          IF a = 0 \/ mx = 0 THEN 0 ELSE IF a = mx THEN (IF nm = "hi" THEN 1 ELSE 0) ELSE (IF nm = "lo" THEN 1 ELSE 0))
NuOk(c, nm, W) == (nm \in {"uni", "half", "rand"}) \/
   (c.conv.kind = "single" /\ c.conv.gmin = 0 /\ LET mx == AllMax(c, W) IN
      \A i \in 1..c.D : \A j \in 1..c.X : (AbsI(W[i][j]) \in {0, mx} \/ 2 * AbsI(W[i][j]) = mx))
\* readout of the compensation: sums of the absolute weights, of all or of each output
Read(c, W) == IF c.comp = "column" THEN [i \in 1..c.D |-> Sum([j \in 1..c.X |-> AbsI(W[i][j])])]
              ELSE LET t == Sum([i \in 1..c.D |-> Sum([j \in 1..c.X |-> AbsI(W[i][j])])]) IN [i \in 1..c.D |-> t]
One(c) == [i \in 1..c.D |-> [n |-> 7, d |-> 0]]    \* (7 of 7: no compensation)

Target(c, s, fr) == IF fr /\ s.ref # <<>> THEN s.ref ELSE s.W
ProgOk(c, s, fr, nm) ==
   /\ ~(s.rnd /\ (~fr \/ s.ref = <<>>))
   /\ LET T == Target(c, s, fr) IN NuOk(c, nm, T) /\ (c.conv.kind # "dev" \/ (nm # "rand" /\ Mx(c, T) # Mn(c, T)))
                                   /\ (nm = "half" => QuotOk(c, T, Const(c, 2)))
                                   /\ (nm = "rand" => AllMax(c, T) > 0)
Program(c, s, fr, nm) ==
   LET T == Target(c, s, fr)
       P == IF nm = "half" THEN Quot(c, T, Const(c, 2)) ELSE T
   IN [s EXCEPT !.ref = T, !.prog = P, !.nu = NuOf(c, nm, T), !.W = P, !.nm = nm, !.rnd = (nm = "rand"), !.prnd = (nm = "rand"),
        !.nb = IF c.comp = "none" THEN @ ELSE IF c.comp = "exact" THEN Read(c, T) ELSE Read(c, P),
        !.al = IF c.comp = "none" THEN @ ELSE One(c)]
Fac(c, s, t) == Tab(c, LAMBDA i, j : IF s.nu[i][j] = 1 THEN t + 1 ELSE 1)
DriftOk(c, s, t) ==
   IF s.prog = <<>> THEN ProgOk(c, s, TRUE, s.nm) /\ (s.nm # "rand" => LET p == Program(c, s, TRUE, s.nm) IN QuotOk(c, p.prog, Fac(c, p, t)))
   ELSE s.prnd \/ QuotOk(c, s.prog, Fac(c, s, t))
Drift(c, s0, t) ==
   LET s == IF s0.prog = <<>> THEN Program(c, s0, TRUE, s0.nm) ELSE s0
       W == IF s.prnd THEN s.prog ELSE Quot(c, s.prog, Fac(c, s, t))
       d == Read(c, W)
   IN [s EXCEPT !.W = W, !.rnd = s.prnd,
        !.al = IF c.comp = "none" THEN @ ELSE [i \in 1..c.D |-> IF d[i] = 0 THEN [n |-> 7, d |-> 0] ELSE [n |-> s.nb[i], d |-> d[i]]]]

InitSt(c) == [W |-> c.W0, ref |-> <<>>, prog |-> <<>>, nu |-> <<>>, nb |-> <<>>, al |-> One(c), nm |-> c.nm, rnd |-> FALSE,
              prnd |-> FALSE, y |-> <<>>, G |-> <<>>, r |-> "-"]
Clear(s) == [s EXCEPT !.y = <<>>, !.G = <<>>, !.r = "-"]
Step(c, s0, a) == LET s == Clear(s0) IN
  CASE a.op = "set"     -> LET n == [s EXCEPT !.W = a.w, !.ref = <<>>, !.rnd = FALSE] IN
                           {IF a.real THEN Program(c, n, TRUE, s.nm) ELSE n}
    [] a.op = "train"   -> {[s EXCEPT !.W = MSub(@, MScale(c.lr, OuterSum(a.d, a.x, c.D, c.X)))]}
    [] a.op = "program" -> {Program(c, s, a.fr, IF a.nm = "" THEN s.nm ELSE a.nm)}
    [] a.op = "drift"   -> {Drift(c, s, a.t)}
    \* outputs, without the compensation factor in evaluation
    [] a.op = "fwd"     -> {[s EXCEPT !.y = IF s.rnd THEN <<>> ELSE XWt(a.x, s.W)]}
    \* programming or drifting while training is refused
    [] a.op = "refuse"  -> {[s EXCEPT !.r = "refused"]}
    \* the conductances of weights (scaled), and the weights of the conductances
    [] a.op = "conv"    -> {[s EXCEPT !.G = Conduct(c, a.w), !.y = a.w]}
    [] a.op = "copy"    -> {s}

\* (relations among random weights: "ok" when the weights are the programmed ones, drifted for the given time)
Obs(c, s) == [W |-> IF s.rnd THEN <<>> ELSE s.W, y |-> s.y, G |-> s.G, r |-> s.r,
              al |-> IF c.comp = "none" \/ s.prnd THEN <<>> ELSE [i \in 1..c.D |-> s.al[i].n],
              rel |-> IF s.prnd THEN "ok" ELSE "-"]

(* ------------------------------------------------------------ properties *)
Exact(s) == ~s.rnd /\ ~s.prnd
Inv(c, s) == \A i \in 1..c.D : s.al[i].n >= 0
StepOk(c, s, a, n) ==
  \* drift is counted from the programming: it never accumulates over calls
  /\ (a.op = "drift" /\ s.prog # <<>>) => n.prog = s.prog /\ n.ref = s.ref /\ n.nb = s.nb
  /\ (a.op = "drift" /\ a.t = 0 /\ Exact(n)) => n.W = n.prog
  \* uniform drift of pairs of devices is compensated completely
  /\ (a.op = "drift" /\ Exact(n) /\ n.nm = "uni" /\ n.nu = Const(c, 1) /\ c.conv.kind # "dev" /\ c.comp \in {"global", "column"}) =>
        \A i \in 1..c.D : \A j \in 1..c.X : n.al[i].d # 0 => n.W[i][j] * n.al[i].n = n.prog[i][j] * n.al[i].d
  /\ (a.op = "drift" /\ Exact(n) /\ c.conv.kind # "dev") =>
        \A i \in 1..c.D : \A j \in 1..c.X : AbsI(n.W[i][j]) <= AbsI(n.prog[i][j])
  /\ (a.op = "program" /\ Exact(n) /\ n.nm # "half") => n.W = Target(c, s, a.fr)
  /\ a.op \in {"fwd", "copy", "refuse", "conv"} => n.W = s.W /\ n.al = s.al
  \* conductances stay in the range of the device
  /\ a.op = "conv" => \A k \in 1..Len(n.G) : \A i \in 1..c.D : \A j \in 1..c.X :
        n.G[k][i][j] \in (c.conv.gmin * GS(c, a.w))..(c.conv.gmax * GS(c, a.w))

(* --------------------------------------------------------- bounded model *)
Single == [kind |-> "single", gmin |-> 0, gmax |-> 24, f |-> <<1>>, g |-> <<>>]
Base == [name |-> "global", tile |-> "cpp", X |-> 2, D |-> 2, nm |-> "uni", conv |-> Single, comp |-> "global", lr |-> 240,
         W0 |-> <<<<240, -480>>, <<0, 480>>>>]
Cfgs0 == {Base, [Base EXCEPT !.name = "col", !.comp = "column", !.tile = "torch", !.W0 = <<<<240, -480>>, <<0, 0>>>>],
   [Base EXCEPT !.name = "exact", !.comp = "exact", !.nm = "half"], [Base EXCEPT !.name = "none", !.comp = "none", !.nm = "lo"],
   [Base EXCEPT !.name = "hi", !.nm = "hi", !.tile = "torch", !.comp = "exact"],
   [Base EXCEPT !.name = "dev", !.conv = [Single EXCEPT !.kind = "dev", !.gmin = 8, !.gmax = 24]],
   [Base EXCEPT !.name = "npair", !.conv = [kind |-> "npair", gmin |-> 2, gmax |-> 20, f |-> <<1, 3>>, g |-> <<>>], !.comp = "column"],
   [Base EXCEPT !.name = "table", !.conv = [kind |-> "table", gmin |-> 0, gmax |-> 20, f |-> <<1>>, g |-> <<<<0, 0, 20>>, <<20, 0, 0>>>>]],
   [Base EXCEPT !.name = "rand", !.nm = "rand"]}
OkAct(c, s, a) ==
  CASE a.op = "set"     -> a.real => ProgOk(c, [s EXCEPT !.W = a.w, !.ref = <<>>, !.rnd = FALSE], TRUE, s.nm)
    [] a.op = "train"   -> ~s.rnd
    [] a.op = "program" -> ProgOk(c, s, a.fr, IF a.nm = "" THEN s.nm ELSE a.nm)
    [] a.op = "drift"   -> DriftOk(c, s, a.t)
    [] a.op = "conv"    -> c.conv.kind # "dev" \/ Mx(c, a.w) # Mn(c, a.w)
    [] OTHER -> TRUE
Acts(c, s) == {a \in
   {[op |-> "set", w |-> <<<<-960, 480>>, <<480, 0>>>>, real |-> b] : b \in BOOLEAN} \cup
   {[op |-> "train", x |-> <<<<1, 0>>>>, d |-> <<<<1, -2>>>>],
    [op |-> "program", fr |-> TRUE, nm |-> "", how |-> "layer"], [op |-> "program", fr |-> FALSE, nm |-> "", how |-> "tile"],
    [op |-> "program", fr |-> TRUE, nm |-> IF c.nm = "rand" THEN "uni" ELSE "half", how |-> "utils"],
    [op |-> "drift", t |-> 0], [op |-> "drift", t |-> 1], [op |-> "drift", t |-> 2],
    [op |-> "fwd", mode |-> "eval", x |-> <<<<1, 2>>, <<-3, 1>>>>], [op |-> "fwd", mode |-> "train", x |-> <<<<1, 2>>, <<-3, 1>>>>],
    [op |-> "refuse", what |-> "drift"], [op |-> "conv", w |-> <<<<120, -60>>, <<0, 30>>>>],
    [op |-> "copy", how |-> "sd"], [op |-> "copy", how |-> "deepcopy"]} : OkAct(c, s, a)}
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
