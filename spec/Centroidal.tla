----------------------------- MODULE Centroidal -----------------------------
(* The centroidal dynamics of a robot whose motion is summarised by its centre *)
(* of mass c(t): with gravity g and mass m the contacts have to provide the    *)
(* 6D wrench m*W, W = (c'' - g, c x (c'' - g)).  A contact phase can provide   *)
(* the wrenches of a polyhedral cone { w : H w >= 0 }, H with unit rows.       *)
EXTENDS Families

Wrench(c, ddc, g) == LET f == VSub(ddc, g) IN f \o VCross(c, f)

(* recorded contact phase, numbers as strings -> rationals *)
ParseContact(k) ==
  TLCEval([H |-> TLCEval(R(k.H)), g |-> TLCEval(R(k.g)), mass |-> R(k.mass),
           Kin |-> TLCEval(R(k.Kin)), kin |-> TLCEval(R(k.kin)),
           Ang |-> TLCEval(R(k.Ang)), ang |-> TLCEval(R(k.ang))])
ParseBc(b) ==
  TLCEval([c0 |-> R(b.c0), dc0 |-> R(b.dc0), ddc0 |-> R(b.ddc0), j0 |-> R(b.j0),
           c1 |-> R(b.c1), dc1 |-> R(b.dc1), ddc1 |-> R(b.ddc1), j1 |-> R(b.j1)])

(* the wrench W keeps a distance of `margin` to the faces of the cone of K *)
(* tol is relative to the wrench and to `extra`                                *)
StableAt(K, W, margin, tol, extra) ==
  LET hw == TLCEval(MV(K.H, W))
      t == RMul(tol, RAdd(RAdd(R(1), VMaxAbs(W)), extra))
  IN  \A i \in 1..Len(hw) : RLe(RSub(margin, t), hw[i])
ReachAt(K, c, tol, extra) ==
  LET kc == TLCEval(MV(K.Kin, c))
  IN  \A i \in 1..Len(kc) : RLe(kc[i], RAdd(K.kin[i], RMul(tol, RMul(RAdd(R(1), extra), RAdd(R(1), VMaxAbs(K.Kin[i]))))))
AccAt(ddc, max, tol, extra) == RLe(VMaxAbs(ddc), RAdd(max, RMul(tol, RAdd(max, extra))))
=============================================================================
