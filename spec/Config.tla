------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configurations: a heap of configuration objects (objs).  An object has  *)
(* a class, the values of its fields f (canonical texts), the objects r    *)
(* its other fields refer to, and the devices d of a unit cell; x: it has  *)
(* an attribute which is no field, bad: fields holding a value of a wrong  *)
(* type.  Objects can be shared (attach).                                  *)
(* bind: what the simulator is given is what the fields say; unknown       *)
(* attributes, values of wrong types and wrong numbers of devices are      *)
(* refused.  Binding, printing, comparing, creating layers and             *)
(* build_config never change a configuration, and layers, copies and built *)
(* configurations never share objects with what they were made from.       *)
(***************************************************************************)
EXTENDS ConfigSchema, FiniteSets, TLC

Sel(n) == 1..n
Blank == [err |-> "", b |-> <<>>, eq |-> "", sh |-> <<>>]

(* ------------------------------------------------------------------ heap *)
RECURSIVE AddT(_, _), AddSeq(_, _)
AddSeq(objs, ts) ==
    IF ts = <<>> THEN [objs |-> objs, is |-> <<>>]
    ELSE LET a == TLCEval(AddT(objs, Head(ts)))
             b == TLCEval(AddSeq(a.objs, Tail(ts)))
         IN [objs |-> b.objs, is |-> <<a.i>> \o b.is]
AddT(objs, t) ==
    LET i == Len(objs) + 1
        o1 == Append(objs, [cls |-> t.cls, f |-> t.f, r |-> <<>>, d |-> <<>>, x |-> 0, bad |-> {}])
        R == TLCEval(AddSeq(o1, t.r))
        D == TLCEval(AddSeq(R.objs, t.d))
    IN [objs |-> [D.objs EXCEPT ![i].r = R.is, ![i].d = D.is], i |-> i]

RECURSIVE TreeOf(_, _)
TreeOf(objs, i) == [cls |-> objs[i].cls, f |-> objs[i].f,
                    r |-> [k \in Sel(Len(objs[i].r)) |-> TreeOf(objs, objs[i].r[k])],
                    d |-> [k \in Sel(Len(objs[i].d)) |-> TreeOf(objs, objs[i].d[k])]]

\* the objects reached from i, in order of their first visit
Rng(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Visit(_, _, _), VisitAll(_, _, _)
VisitAll(objs, is, acc) == IF is = <<>> THEN acc ELSE VisitAll(objs, Tail(is), Visit(objs, Head(is), acc))
Visit(objs, i, acc) == IF i \in Rng(acc) THEN acc
                       ELSE VisitAll(objs, objs[i].r \o objs[i].d, Append(acc, i))
Reach(objs, i) == Visit(objs, i, <<>>)

\* a copy of i and all it refers to (what was shared within stays so)
Copy(objs, i) ==
    LET q == TLCEval(Reach(objs, i))
        n == Len(objs)
        New(j) == n + (CHOOSE k \in 1..Len(q) : q[k] = j)
        C(j) == [objs[j] EXCEPT !.r = [k \in Sel(Len(objs[j].r)) |-> New(objs[j].r[k])],
                                !.d = [k \in Sel(Len(objs[j].d)) |-> New(objs[j].d[k])]]
    IN TLCEval(objs \o [k \in Sel(Len(q)) |-> C(q[k])])

(* --------------------------------------------------------------- binding *)
Base(o) == BaseOf[o.cls]
Rpus == {"FloatingPointRPUConfig", "InferenceRPUConfig", "SingleRPUConfig", "UnitCellRPUConfig",
         "DigitalRankUpdateRPUConfig", "TorchInferenceRPUConfig"}
IsRpu(o) == Base(o) \in Rpus
Cells == {"VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound", "BufferedTransferCompound",
          "ChoppedTransferCompound", "DynamicTransferCompound"}
\* how many (and which) devices a unit cell takes
DevsOk(objs, o) ==
    LET n == Len(o.d) IN
    CASE Base(o) = "ReferenceUnitCell" -> n > 0
      [] Base(o) = "OneSidedUnitCell" -> n = 1 \/ (n = 2 /\ Base(objs[o.d[1]]) = Base(objs[o.d[2]]))
      [] Base(o) \in {"TransferCompound", "BufferedTransferCompound"} -> n >= 2
      [] Base(o) \in {"ChoppedTransferCompound", "DynamicTransferCompound"} -> n = 2
      [] OTHER -> TRUE
\* the devices a unit cell uses
Used(o) == CASE Base(o) = "VectorUnitCell" -> o.d
             [] Base(o) \in Cells \ {"VectorUnitCell"} -> SubSeq(o.d, 1, IF Len(o.d) < 2 THEN Len(o.d) ELSE 2)
             [] OTHER -> <<>>
BoundR(o) == {o.r[k] : k \in {k \in 1..Len(o.r) : RefsOf[o.cls][k][2]}}
DevR(o) == IF Base(o) = "MixedPrecisionCompound" THEN {o.r[RIdx(o.cls, "device")]} ELSE {}
RECURSIVE Fine(_, _)
Fine(objs, i) ==
    LET o == objs[i] IN
    /\ IsRpu(o) \/ (o.x = 0 /\ o.bad = {})
    /\ DevsOk(objs, o)
    /\ \A j \in BoundR(o) \cup DevR(o) \cup Rng(Used(o)) : Fine(objs, j)
RECURSIVE Bind(_, _)
Bind(objs, i) ==
    LET o == objs[i]
        F == FieldsOf[o.cls]
        q == SelectSeq([k \in Sel(Len(o.r)) |-> k], LAMBDA k : RefsOf[o.cls][k][2])
    IN [f |-> [k \in Sel(Len(o.f)) |-> IF F[k][3] THEN o.f[k] ELSE "-"],
        r |-> [k \in Sel(Len(q)) |-> Bind(objs, o.r[q[k]])]]
\* creating a tile binds the configuration and its device
TileFine(objs, i) ==
    LET o == objs[i] IN Fine(objs, i) /\ Fine(objs, o.r[RIdx(o.cls, "device")])

(* -------------------------------------------------------------- printing *)
Shown(o) ==
    LET F == FieldsOf[o.cls]
        D == Def[o.cls].f
        P == \E k \in 1..Len(F) : F[k][1] = "is_perfect" /\ o.f[k] = "True"
        q == SelectSeq([k \in Sel(Len(F)) |-> k], LAMBDA k : o.f[k] # D[k] /\ (P => F[k][1] = "is_perfect"))
    IN [k \in Sel(Len(q)) |-> F[q[k]][1]]

(* ---------------------------------------------------------- build_config *)
Set3(t, io, up) == SetR(SetR(SetR(t, "forward", io), "backward", io), "update", up)
NoMan(io) == SetF(SetF(io, "noise_management", "None"), "bound_management", "None")
One(up, bm, um) == SetF(SetF(SetF(up, "desired_bl", "1"), "update_bl_management", bm), "update_management", um)
Trans(cls, dv, tf, tu, seed) == SetF(SetD(SetR(SetR(Def[cls], "transfer_forward", tf), "transfer_update", tu), <<dv, dv>>),
                                     "construction_seed", seed)
Unit(dev, io, up) == SetR(Set3(Def["UnitCellRPUConfig"], io, up), "device", dev)
Built(alg, dv, io, up, n, seed) ==
    CASE alg = "sgd" /\ n = 1 -> SetR(Set3(Def["SingleRPUConfig"], io, up), "device", SetF(dv, "construction_seed", seed))
      [] alg = "sgd" -> Unit(SetF(SetF(SetD(Def["VectorUnitCell"], [k \in 1..n |-> dv]), "update_policy", "SingleRandom"),
                                  "construction_seed", seed), io, up)
      [] alg = "tt" -> Unit(SetF(Trans("TransferCompound", dv, NoMan(io), up, seed), "units_in_mbatch", "True"), io, up)
      [] alg = "ttv2" -> Unit(SetF(SetF(SetF(Trans("ChoppedTransferCompound", dv, NoMan(io), One(up, "False", "False"), seed),
                                  "in_chop_prob", "0"), "units_in_mbatch", "False"), "auto_scale", "False"),
                              io, SetF(up, "desired_bl", "5"))
      [] alg = "c-ttv2" -> Unit(SetF(SetF(SetF(Trans("ChoppedTransferCompound", dv, NoMan(io), One(up, "False", "False"), seed),
                                    "fast_lr", "0.1"), "units_in_mbatch", "False"), "auto_scale", "True"),
                                io, SetF(up, "desired_bl", "5"))
      [] alg = "agad" -> Unit(SetF(SetF(SetF(Trans("DynamicTransferCompound", dv, io, One(up, "True", "True"), seed),
                                  "fast_lr", "0.1"), "units_in_mbatch", "False"), "auto_scale", "True"),
                              io, SetF(up, "desired_bl", "5"))
      [] alg = "mp" -> SetR(Set3(Def["DigitalRankUpdateRPUConfig"], io, up), "device",
                            SetR(Def["MixedPrecisionCompound"], "device", SetF(dv, "construction_seed", seed)))

(* ------------------------------------------------------------- behaviour *)
OkType(k, v) == k = v \/ (k = "f" /\ v = "i")
RECURSIVE AddAll(_, _)
AddAll(objs, cs) == IF cs = <<>> THEN objs ELSE AddAll(TLCEval(AddT(objs, Def[Head(cs)]).objs), Tail(cs))
InitSt(c) == [objs |-> TLCEval(AddAll(<<>>, c.roots)), out |-> Blank]

\* what the argument of build_config stands for: an object, or a class
Arg(objs, a) == IF a.o > 0 THEN TreeOf(objs, a.o) ELSE Def[a.cls]

RECURSIVE Copies(_, _, _)
Copies(objs, i, n) == IF n = 0 THEN objs ELSE Copies(Copy(objs, i), i, n - 1)

Step(c, s0, a) ==
  LET s == [s0 EXCEPT !.out = Blank]
      objs == s.objs
  IN
  CASE a.op = "new"    -> {[s EXCEPT !.objs = TLCEval(AddT(objs, Def[a.cls]).objs)]}
    [] a.op = "set"    ->
        LET o == objs[a.o]
            k == FIdx(o.cls, a.f)
        IN {[s EXCEPT !.objs[a.o].f[k] = a.v,
                      !.objs[a.o].bad = IF OkType(FieldsOf[o.cls][k][2], a.k) THEN @ \ {k} ELSE @ \cup {k}]}
    [] a.op = "attach" -> {[s EXCEPT !.objs[a.o].r[RIdx(objs[a.o].cls, a.f)] = a.p]}
    [] a.op = "devs"   -> {[s EXCEPT !.objs[a.o].d = a.d]}
    [] a.op = "extra"  -> {[s EXCEPT !.objs[a.o].x = 1]}
    [] a.op = "unextra" -> {[s EXCEPT !.objs[a.o].x = 0]}
    [] a.op = "bind"   -> IF Fine(objs, a.o) THEN {[s EXCEPT !.out.b = <<Bind(objs, a.o)>>]}
                          ELSE {[s EXCEPT !.out.err = "ConfigError"]}
    [] a.op = "copy"   -> {[s EXCEPT !.objs = Copy(objs, a.o)]}
    [] a.op = "tile"   -> IF TileFine(objs, a.o) THEN {[s EXCEPT !.objs = TLCEval(Copies(objs, a.o, a.n))]}
                          ELSE {[s EXCEPT !.out.err = "ConfigError"]}
    [] a.op = "eq"     -> {[s EXCEPT !.out.eq = IF TreeOf(objs, a.o) = TreeOf(objs, a.p) THEN "yes" ELSE "no"]}
    [] a.op = "show"   -> {[s EXCEPT !.out.sh = Shown(objs[a.o])]}
    [] a.op = "build"  -> {[s EXCEPT !.objs = TLCEval(AddT(objs, TLCEval(Built(a.alg, Arg(objs, a.dev), Arg(objs, a.io),
                                                         Arg(objs, a.up), a.n, a.seed))).objs)]}

Obs(c, s) == [objs |-> [i \in 1..Len(s.objs) |-> LET o == s.objs[i] IN
                          [cls |-> o.cls, f |-> o.f, r |-> o.r, d |-> o.d, x |-> o.x]],
              out |-> s.out]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == \A i \in 1..Len(s.objs) :
    LET o == s.objs[i] IN /\ Len(o.f) = Len(FieldsOf[o.cls]) /\ Len(o.r) = Len(RefsOf[o.cls])
                          /\ \A j \in Rng(o.r) \cup Rng(o.d) : j \in 1..Len(s.objs)
Reads == {"bind", "eq", "show", "tile", "build", "copy", "new"}
StepOk(c, s, a, n) ==
    /\ a.op \in Reads => \A i \in 1..Len(s.objs) : n.objs[i] = s.objs[i]
    \* what is new refers to nothing which was there
    /\ a.op \in {"copy", "tile", "build", "new"} =>
          \A i \in (Len(s.objs) + 1)..Len(n.objs) : \A j \in Rng(n.objs[i].r) \cup Rng(n.objs[i].d) : j > Len(s.objs)
    /\ (a.op = "tile" /\ n.out.err = "") => TreeOf(n.objs, Len(s.objs) + 1) = TreeOf(s.objs, a.o)
    /\ a.op \in {"set", "attach", "devs", "extra", "unextra"} =>
          \A i \in 1..Len(s.objs) : i # a.o => n.objs[i] = s.objs[i]

(* --------------------------------------------------------- bounded model *)
C(rs) == [roots |-> rs]
Cfgs0 == {C(<<"SingleRPUConfig", "IOParameters">>), C(<<"InferenceRPUConfig", "IOParameters">>),
          C(<<"TransferCompound", "ConstantStepDevice", "IOParameters">>),
          C(<<"ReferenceUnitCell", "SoftBoundsDevice", "UpdateParameters">>),
          C(<<"ConstantStepDevice", "IOParameters", "UpdateParameters">>)}
Cfgs1 == Cfgs0
Of(s, cl) == {i \in 1..Len(s.objs) : s.objs[i].cls \in cl}
Io == {"IOParameters"}
Dv == {"ConstantStepDevice", "SoftBoundsDevice"}
Acts(c, s) ==
  LET top == 1
      rp == IsRpu(s.objs[1])
      cell == Base(s.objs[1]) \in Cells
      big == Len(s.objs) > 20
  IN
  {[op |-> "bind", o |-> top]} \cup {[op |-> "show", o |-> i] : i \in Of(s, Io)}
  \cup {[op |-> "set", o |-> i, f |-> "inp_res", k |-> "f", v |-> "0.25"] : i \in Of(s, Io)}
  \cup {[op |-> "set", o |-> i, f |-> "out_noise", k |-> "s", v |-> "abc"] : i \in Of(s, Io)}
  \cup {[op |-> "extra", o |-> i] : i \in Of(s, Io \cup Dv)}
  \cup {[op |-> "set", o |-> i, f |-> "dw_min", k |-> "i", v |-> "2"] : i \in Of(s, Dv)}
  \cup (IF rp /\ Len(s.objs) > 1 THEN {[op |-> "attach", o |-> top, f |-> "forward", p |-> i] : i \in Of(s, Io)} ELSE {})
  \cup (IF rp /\ ~big THEN {[op |-> "tile", o |-> top, n |-> 2, how |-> "convert"]} ELSE {})
  \cup (IF cell THEN {[op |-> "devs", o |-> top, d |-> q] : q \in {<<>>} \cup {<<i>> : i \in Of(s, Dv)}
                        \cup {<<i, i>> : i \in Of(s, Dv)} \cup {<<i, i, i>> : i \in Of(s, Dv)}} ELSE {})
  \cup (IF big \/ rp THEN {} ELSE {[op |-> "copy", o |-> top]})
  \cup (IF s.objs[1].cls # "ConstantStepDevice" \/ big \/ s.objs[1].x + s.objs[3].x > 0 THEN {}
        ELSE {[op |-> "build", alg |-> al, dev |-> [o |-> 1, cls |-> ""], io |-> [o |-> 3, cls |-> ""],
               up |-> [o |-> 0, cls |-> "UpdateParameters"], n |-> n, seed |-> "3"] :
               al \in {"sgd", "tt", "ttv2", "c-ttv2", "agad", "mp"}, n \in {1, 2}})
=============================================================================
