------------------------------ MODULE HwTrain ------------------------------
(***************************************************************************)
(* Hardware-aware training: the weights used in the forward and backward   *)
(* pass (modified), those which are updated (actual), and what the end of  *)
(* each update does to them: clipping, remapping, new modification.        *)
(* tile: "cpp" InferenceTile: the modified copy is renewed only at the end *)
(*   of an update; "torch" TorchInferenceTile: modified in each forward    *)
(* mod: "none", "abs" / "rel" discretized in steps of a quarter of 1 / of  *)
(*   the actual maximum, "drop" all connections dropped, "zero" noise of   *)
(*   no strength, "add" / "mult" noise; cl: last column is copied,         *)
(*   et: modified also in evaluation                                       *)
(* clip: "none", "fix" at cv, "avg" at the average of the maxima of the    *)
(*   rows (at most cv if cv > 0)                                           *)
(* remap: "none", "layer", "chan" to a maximum of 64 / wm; rng, ref: range *)
(*   of the scales (0: not limited) and its reference                      *)
(* Weights are integers (unit 1/64).  State: L logical weights, lam scales *)
(*   of the rows (unit 1/64), fb modified copy (logical, unit 1/256) or    *)
(*   <<>>; np number of clippings since set; fr: noise drawn since the     *)
(*   last look (3 never looked at, 1 yes, 0 no); y, gx last outputs; same  *)
(***************************************************************************)
EXTENDS Mat, TLC

Noise(c) == c.mod \in {"add", "mult"}
RowMax(c, L, i) == MaxSeq([j \in 1..c.X |-> AbsI(L[i][j])])
AllMax(c, L) == MaxSeq([i \in 1..c.D |-> RowMax(c, L, i)])
Tab(c, F(_, _)) == [i \in 1..c.D |-> [j \in 1..c.X |-> F(i, j)]]

(* --------------------------------------------------- end of an update --- *)
\* (logical weights are clipped on the scale of the device, multiples of 64 / lam)
ClipL(c, L, lam) ==
  IF c.clip = "none" THEN L
  ELSE IF c.clip = "fix" THEN Tab(c, LAMBDA i, j : Clip(L[i][j], -((c.cv * lam[i]) \div 64), (c.cv * lam[i]) \div 64))
  ELSE LET m == Sum([i \in 1..c.D |-> RowMax(c, L, i)]) \div c.D
           v == IF c.cv > 0 THEN MinI(m, c.cv) ELSE m
       IN Tab(c, LAMBDA i, j : Clip(L[i][j], -v, v))

\* new scales: the maximum of the logical weights (of the row) divided by the mapped maximum; zeros keep the scale
Remap(c, L, lam) ==
  IF c.remap = "none" THEN lam
  ELSE IF c.remap = "layer" THEN (IF AllMax(c, L) = 0 THEN lam ELSE [i \in 1..c.D |-> AllMax(c, L) * c.wm])
  ELSE LET new == [i \in 1..c.D |-> IF RowMax(c, L, i) = 0 THEN lam[i] ELSE RowMax(c, L, i) * c.wm]
           mn0 == CHOOSE m \in {lam[i] : i \in 1..c.D} : \A i \in 1..c.D : m <= lam[i]
           mn == IF c.ref > 0 THEN MaxI(mn0, c.ref) ELSE mn0
       IN IF c.rng = 0 THEN new ELSE [i \in 1..c.D |-> MinI(new[i], mn * c.rng)]

\* round to nearest (no ties occur) of n / d
Rnd(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((2 * (-n) + d) \div (2 * d))
RelMax(c, L) == LET k == IF c.cl THEN c.X - 1 ELSE c.X
                    m == MaxSeq(<<0>> \o [i \in 1..c.D |-> MaxSeq(<<0>> \o [j \in 1..k |-> AbsI(L[i][j])])])
                IN IF m = 0 THEN 64 ELSE m
\* the modified weights, as logical weights in 1/256
Modified(c, L, lam) == Tab(c, LAMBDA i, j :
   IF c.cl /\ j = c.X THEN 4 * L[i][j]
   ELSE CASE c.mod = "drop" -> 0
          [] c.mod = "abs" -> Rnd(4 * L[i][j], lam[i]) * lam[i]
          [] c.mod = "rel" -> LET m == RelMax(c, L) IN Rnd(4 * L[i][j], m) * m
          [] OTHER -> 4 * L[i][j])
Post(c, s) ==
   LET L == ClipL(c, s.L, s.lam) lam == Remap(c, L, s.lam) IN
   [s EXCEPT !.L = L, !.lam = lam, !.np = @ + 1, !.st = FALSE,
             !.fb = IF c.tile = "cpp" /\ c.mod # "none" THEN Modified(c, L, lam) ELSE @,
             !.fr = IF c.tile = "cpp" /\ c.mod # "none" /\ @ # 3 THEN 1 ELSE @]
\* weights seen by the forward and backward pass
Seen(c, s, mode) ==
   IF c.tile = "torch" THEN (IF mode = "train" THEN Modified(c, s.L, s.lam) ELSE MScale(4, s.L))
   ELSE IF s.fb # <<>> /\ (mode = "train" \/ c.et) THEN s.fb ELSE MScale(4, s.L)
IsNoisy(c, s, mode) == Noise(c) /\ (IF c.tile = "torch" THEN mode = "train" ELSE s.fb # <<>> /\ (mode = "train" \/ c.et))
Upd(c, s, x, d) == MSub(s.L, MScale(c.lr, OuterSum(d, x, c.D, c.X)))

InitSt(c) == [L |-> c.W0, lam |-> [i \in 1..c.D |-> 64], fb |-> <<>>, np |-> 0, fr |-> 3, st |-> FALSE, y |-> <<>>, gx |-> <<>>, same |-> "-"]
Pass(c, s, a, mode) == [s EXCEPT !.y = IF IsNoisy(c, s, mode) THEN <<>> ELSE XWt(a.x, Seen(c, s, mode)),
                                 !.gx = IF mode = "eval" \/ IsNoisy(c, s, mode) THEN <<>> ELSE DW(a.d, Seen(c, s, mode), c.X),
                                 !.same = "-"]
\* a look at noisy weights: are they those of the last look?
Look(c, s) ==
   LET drawn == IF c.tile = "torch" THEN TRUE ELSE s.fr = 1 IN
   [s EXCEPT !.same = IF s.fr = 3 THEN "first" ELSE IF drawn THEN "no" ELSE "yes", !.fr = 0, !.y = <<>>, !.gx = <<>>]

OnGrid(c) == c.mod \in {"abs", "drop"} /\ ~c.cl
Step(c, s, a) ==
  CASE a.op = "fwd"   -> {Pass(c, s, a, a.mode)}
    [] a.op = "look"  -> {IF IsNoisy(c, s, "train") THEN Look(c, s) ELSE [s EXCEPT !.same = "-", !.y = <<>>, !.gx = <<>>]}
    [] a.op = "train" -> {LET p == Pass(c, s, a, "train") IN Post(c, [p EXCEPT !.L = Upd(c, s, a.x, a.d)])}
    [] a.op = "post"  -> {[Post(c, s) EXCEPT !.y = <<>>, !.gx = <<>>, !.same = "-"]}
    [] a.op = "set"   -> {[s EXCEPT !.L = a.w, !.lam = [i \in 1..c.D |-> 64], !.np = 0, !.st = TRUE,
                                   !.fb = IF @ = <<>> \/ c.remap = "none" \/ ~OnGrid(c) THEN @ ELSE Tab(c, LAMBDA i, j : (@[i][j] * 64) \div s.lam[i]), !.y = <<>>, !.gx = <<>>, !.same = "-"]}
    [] a.op = "copy"  -> {[s EXCEPT !.y = <<>>, !.gx = <<>>, !.same = "-"]}

Obs(c, s) == [y |-> s.y, gx |-> s.gx, W |-> s.L, lam |-> s.lam, same |-> s.same]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == \A i \in 1..c.D : s.lam[i] > 0
StepOk(c, s, a, n) ==
  \* clipped weights are within the bound; remapping never changes what the layer computes, only how it is mapped
  /\ (a.op \in {"post", "train"} /\ c.clip = "fix" /\ c.remap = "none") => AllMax(c, n.L) <= c.cv
  /\ (a.op = "post" /\ c.clip = "none") => n.L = s.L
  /\ (a.op = "post" /\ c.remap = "chan" /\ c.rng = 0) => \A i \in 1..c.D : RowMax(c, n.L, i) \in {0, n.lam[i] \div c.wm}
  \* evaluation sees the actual weights; modification never reaches the actual weights
  /\ (a.op = "fwd" /\ a.mode = "eval" /\ ~c.et) => n.y = XWt(a.x, MScale(4, s.L))
  /\ a.op \in {"fwd", "copy", "look"} => n.L = s.L /\ n.fb = s.fb
  /\ (a.op = "train" /\ c.clip = "none") => n.L = Upd(c, s, a.x, a.d)

(* --------------------------------------------------------- bounded model *)
Base == [name |-> "cppabs", tile |-> "cpp", X |-> 2, D |-> 2, mod |-> "abs", cl |-> FALSE, et |-> FALSE, clip |-> "none", cv |-> 0,
         remap |-> "none", wm |-> 1, rng |-> 0, ref |-> 0, lr |-> 2, pbs |-> FALSE, W0 |-> <<<<45, -13>>, <<7, 71>>>>]
Rm == [Base EXCEPT !.name = "chan", !.remap = "chan", !.W0 = <<<<45, -13>>, <<0, 0>>>>]
Cfgs0 == {Base, [Base EXCEPT !.name = "cppcl", !.cl = TRUE, !.mod = "rel", !.clip = "fix", !.cv = 41],
   [Base EXCEPT !.name = "cppet", !.et = TRUE, !.mod = "drop", !.cl = TRUE],
   [Base EXCEPT !.name = "torchabs", !.tile = "torch", !.clip = "fix", !.cv = 51],
   [Base EXCEPT !.name = "torchrel", !.tile = "torch", !.mod = "rel", !.pbs = TRUE],
   [Base EXCEPT !.name = "noise", !.mod = "add"], [Base EXCEPT !.name = "torchnoise", !.mod = "mult", !.tile = "torch"],
   [Base EXCEPT !.name = "avg", !.mod = "none", !.clip = "avg", !.lr = 32, !.W0 = <<<<64, -160>>, <<32, 0>>>>],
   [Base EXCEPT !.name = "zero", !.mod = "zero", !.clip = "fix", !.cv = 9],
   Rm, [Rm EXCEPT !.name = "layer", !.remap = "layer", !.mod = "none"], [Rm EXCEPT !.name = "range", !.rng = 2, !.ref = 9],
   [Rm EXCEPT !.name = "half", !.wm = 2, !.mod = "none", !.W0 = <<<<3, 33>>, <<-9, 5>>>>],
   [Rm EXCEPT !.name = "torchchan", !.tile = "torch"], [Rm EXCEPT !.name = "torchlayer", !.tile = "torch", !.remap = "layer", !.clip = "fix", !.cv = 64]}
OkAct(c, s, a) == CASE a.op = "train" -> c.remap = "none" /\ (c.clip # "avg" \/ s.np < 4)
                    [] a.op = "post" -> c.clip # "avg" \/ s.np < 4
                    [] a.op = "look" -> Noise(c)
                    [] a.op = "fwd" -> c.remap = "none" \/ ~s.st \/ OnGrid(c) \/ s.fb = <<>> \/ (a.mode = "eval" /\ ~c.et)
                    [] a.op = "set" -> c.remap # "none" \/ a.w[1][1] # 0
                    [] OTHER -> TRUE
X1 == <<<<1, 2>>, <<-1, 1>>>>
Acts(c, s) == {a \in
   {[op |-> "fwd", mode |-> m, x |-> X1, d |-> <<<<1, -1>>, <<2, 1>>>>] : m \in {"train", "eval"}} \cup
   {[op |-> "train", x |-> X1, d |-> <<<<1, -1>>, <<2, 1>>>>], [op |-> "train", x |-> <<<<3, 0>>>>, d |-> <<<<0, -2>>>>],
    [op |-> "post"], [op |-> "look"], [op |-> "copy", how |-> "pickle"], [op |-> "copy", how |-> "sd"],
    [op |-> "set", w |-> IF c.clip = "avg" THEN <<<<-96, 32>>, <<128, 64>>>> ELSE <<<<-21, 5>>, <<37, 1>>>>],
    [op |-> "set", w |-> <<<<0, 0>>, <<0, 0>>>>]} : OkAct(c, s, a)}
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
