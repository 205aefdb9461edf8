----------------------------- MODULE GenValues ------------------------------
(***************************************************************************)
(* Generator: for each listed class some parameter points, at each some    *)
(* phase-space points in different frames, and every amplitude for every   *)
(* spin assignment and every squared amplitude at each.                    *)
(***************************************************************************)
EXTENDS SMPoints, Json, IOUtils

Mine == JsonDeserialize(IOEnv.CLASSES)
Seed == IOEnv.SEED
NPar == JsonDeserialize(IOEnv.NPAR)
NMom == JsonDeserialize(IOEnv.NMOM)
Frames == <<4, 1, 2, 7, 3, 5, 6>>

\* Calls, as token lists.
Queries(cls) ==
  LET sig == Sig(cls)
      ofAmp(a) == LET ds == Product(a.args) IN [j \in DOMAIN ds |-> <<"amp", 0, a.f>> \o ds[j]]
      RECURSIVE amps(_)
      amps(k) == IF IntLess(Len(sig.amps), k) THEN <<>> ELSE ofAmp(sig.amps[k]) \o amps(k + 1)
  IN amps(1) \o [k \in DOMAIN sig.squares |-> <<"amp2", 0, sig.squares[k]>>]

At(cls, q, key, k) ==
  LET m == TLCEval(LegsOf(cls, Values(q)))
      mom == TLCEval(InFrame(Frames[1 + IntMod(k - 1, 7)], Point(m, <<key, k>>), <<key, k>>))
      text == MomText(mom)
      once == IF Sig(cls).at THEN <<<<"amp2at", 0>> \o text>> ELSE <<>>
  IN once \o <<<<"mom", 0>> \o text>> \o Queries(cls)

RECURSIVE Cat(_, _, _)
Cat(f(_), k, n) == IF IntLess(n, k) THEN <<>> ELSE f(k) \o Cat(f, k + 1, n)

OfPar(cls, k) ==
  LET key == <<Seed, cls, k>>
      q == TLCEval(ParamText(cls, key))
  IN <<<<"new", 0, cls>> \o InOrder(Sig(cls).ctor, q)>> \o Cat(LAMBDA j: At(cls, q, key, j), 1, NMom)

Script == Cat(LAMBDA i: Cat(LAMBDA k: OfPar(Mine[i], k), 1, NPar), 1, Len(Mine))

VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, Script)
Next == UNCHANGED done
=============================================================================
