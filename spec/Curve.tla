-------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* The marginal of a parameter as drawn: the density of Marginal raised to *)
(* the power of the chain and scaled by its relative height, shaded over   *)
(* its summary.                                                            *)
(***************************************************************************)
EXTENDS Marginal

Drawn(density, power, rel) == QMul(rel, IF QEq(power, "1") THEN density ELSE QPow(density, power))
(* A histogram bar: share is the part of the mass in the cell.             *)
Bar(share, width, power, rel) == Drawn(QDiv(share, width), power, rel)

(* Where the drawn curve may lie at x, allowing for the binning.           *)
Under(m, x, power, rel) ==
  LET f == Lowest(m, QSub(x, m.slop), QAdd(x, m.slop)) IN Drawn(QMax("0", QSub(QMul(f, QSub("1", m.dtol)), m.dabs)), power, rel)
Over(m, x, power, rel) ==
  LET f == Highest(m, QSub(x, m.slop), QAdd(x, m.slop)) IN Drawn(QAdd(QMul(f, QAdd("1", m.dtol)), m.dabs), power, rel)

(* Scene: [summarise, on (shading), blind, chains: how many drawn with     *)
(* contours].                                                              *)
Titled(z) == z.summarise /\ z.on /\ ~z.blind /\ z.chains = 1
=============================================================================
