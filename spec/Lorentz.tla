------------------------------ MODULE Lorentz -------------------------------
(***************************************************************************)
(* Rotations and boosts of four-momenta, and 2 -> 2 kinematics.            *)
(***************************************************************************)
EXTENDS Spinor

Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Scale3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Unit3(a) == Scale3(1 / Sqrt(Dot3(a, a)), a)
Space(p) == <<p[2], p[3], p[4]>>
Four(e, a) == <<e, a[1], a[2], a[3]>>

\* Right-handed rotation by angle t about the unit vector u (Rodrigues' formula).
Rotate(p, u, t) ==
  LET x == Space(p)
      c == Cos(t)
      s == Sin(t)
  IN Four(p[1], Add3(Add3(Scale3(c, x), Scale3(s, Cross(u, x))), Scale3((1 - c) * Dot3(u, x), u)))

\* The momentum seen by an observer moving with velocity v, |v| < 1.
Boost(p, v) ==
  LET v2 == Dot3(v, v)
      g == 1 / Sqrt(1 - v2)
      vp == Dot3(v, Space(p))
      along == ((g - 1) * vp) / v2 - g * p[1]
  IN IF SameNum(v2, 0) THEN p ELSE Four(g * (p[1] - vp), Add3(Space(p), Scale3(along, v)))

\* ----------------------------------------------------- 2 -> 2 kinematics
\* Centre-of-momentum energies for masses m = <<m1, m2, m3, m4>> and squared energy s.
EnergyOf(s, ma, mb) == (s + ma * ma - mb * mb) / (2 * Sqrt(s))
MomentumOf(s, ma, mb) ==
  LET x == (s - Sq(ma + mb)) * (s - Sq(ma - mb)) IN Sqrt(x) / (2 * Sqrt(s))

\* Particles 1 and 2 along +z and -z, particle 3 at the angle with cosine c in the xz plane.
TwoToTwo(m, s, c) ==
  LET pin == MomentumOf(s, m[1], m[2])
      pout == MomentumOf(s, m[3], m[4])
      sn == Sqrt(1 - c * c)
  IN <<<<EnergyOf(s, m[1], m[2]), 0, 0, pin>>, <<EnergyOf(s, m[2], m[1]), 0, 0, -pin>>,
       <<EnergyOf(s, m[3], m[4]), pout * sn, 0, pout * c>>, <<EnergyOf(s, m[4], m[3]), -(pout * sn), 0, -(pout * c)>>>>

MapAll(mom, f(_)) == <<f(mom[1]), f(mom[2]), f(mom[3]), f(mom[4])>>
RotateAll(mom, u, t) == MapAll(mom, LAMBDA p: Rotate(p, u, t))
BoostAll(mom, v) == MapAll(mom, LAMBDA p: Boost(p, v))
=============================================================================
