------------------------------- MODULE HPCore -------------------------------
(***************************************************************************)
(* Single hyperparameters: what may be declared, which values and vectors  *)
(* are legal, how the two correspond, what its neighbours are, what may be *)
(* drawn and how often, what is derived from it and when two are equal.    *)
(*                                                                         *)
(* Values are codes as in CSCore.  Where a law is about quantities, a      *)
(* number also has a measure: its value, or its logarithm on a log scale,  *)
(* in units such that the measures of the bounds are less than 2^15 apart. *)
(* Measures are rounded to integers.  A position in the unit interval is   *)
(* an integer between 0 and Q.                                             *)
(*                                                                         *)
(*  declaration  [t, pr, log, lo, hi, mlo, mhi, ni, en, n, vals, set, w,   *)
(*                ws, def, dgiven, dint, zero, one, mu, mmu, sg, al, be,   *)
(*                a4, b4, name, named, meta, clo, fhi, rdef, up, ks]       *)
(*     t       "cat", "ord", "const", "int" or "float"                     *)
(*     pr      "u", "n" or "b": uniform, normal or beta distributed        *)
(*     lo, hi  bounds; mlo, mhi their measures                             *)
(*     ni      codes between the bounds which are no integers, for an      *)
(*             integer; en whether all others have codes; n the size       *)
(*     vals    the values of a finite one; set if they were given as a set *)
(*     ks      the types of these values                                   *)
(*     w, ws   weights as integers; ws whether weights were given          *)
(*     def     the default, if dgiven; dint whether it is integral         *)
(*     zero, one    the codes of 0 and 1                                   *)
(*     mu, sg, al, be   parameters of the prior; mmu the measure of mu,    *)
(*             a4 and b4 four times alpha and beta                         *)
(*     name, meta   codes; named whether the name is a text                *)
(*     clo, fhi     the bounds rounded inwards, cn the size of this range  *)
(*     rdef    the rounded default, nearest legal one (after it is known)  *)
(***************************************************************************)
EXTENDS CSCore

Q == 65536

Abs(x) == IF x < 0 THEN -x ELSE x
IsNum(d) == d.t \in {"int", "float"}
IsSeq(d) == d.t \in {"cat", "ord"}

----------------------------------------------------------------------------
(* Declarations *)

Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
SumW(w) == FoldLeft(LAMBDA a, b : a + b, 0, w)

DeclOk(d) ==
    /\ d.named
    /\ CASE d.t = "const" -> TRUE
         [] IsSeq(d) ->
              /\ d.vals # <<>>
              /\ Distinct(d.vals)
              /\ ~d.set
              /\ d.dgiven => d.def \in RangeOf(d.vals)
              /\ d.ws => /\ d.t = "cat"
                         /\ Len(d.w) = Len(d.vals)
                         /\ \A j \in DOMAIN d.w : d.w[j] >= 0
                         /\ \E j \in DOMAIN d.w : d.w[j] > 0
         [] OTHER ->
              /\ d.lo < d.hi
              /\ d.log => d.lo > d.zero
              /\ d.dgiven => /\ d.def >= d.lo /\ d.def <= d.hi
                             /\ d.t = "int" => d.dint
              /\ d.pr = "n" /\ d.log => d.mu > d.zero
              /\ d.pr = "b" => d.al >= d.one /\ d.be >= d.one

\* Whether v, of measure m, is what the default has to be.  An integer may be
\* off by tol, half a step.
DefaultIs(d, v, m, tol) ==
    IF d.dgiven THEN v = d.def
    ELSE CASE d.t = "const" -> v = d.vals[1]
      [] d.t = "ord" -> v = d.vals[1]
      [] d.t = "cat" ->
           IF ~d.ws THEN v = d.vals[1]
           ELSE \* the first one of the most likely
                \E j \in DOMAIN d.vals :
                   /\ v = d.vals[j]
                   /\ \A i \in DOMAIN d.w : d.w[i] < d.w[j] \/ (d.w[i] = d.w[j] /\ i >= j)
      [] d.pr = "u" ->
           \* the middle of the range, on its scale
           Abs(2 * m - d.mlo - d.mhi) <= 2 * tol + 2
      [] d.pr = "n" ->
           \* the mean, if it is in the range
           IF d.mu < d.lo THEN v = d.lo
           ELSE IF d.mu > d.hi THEN v = d.hi
           ELSE IF d.t = "float" THEN v = d.mu
           ELSE Abs(m - d.mmu) <= tol + 1
      [] d.pr = "b" ->
           \* the mode
           IF d.a4 + d.b4 = 8 THEN Abs(2 * m - d.mlo - d.mhi) <= 2 * tol + 2
           ELSE Abs((m - d.mlo) * (d.a4 + d.b4 - 8) - (d.mhi - d.mlo) * (d.a4 - 4))
                  <= (tol + 2) * (d.a4 + d.b4 - 8)

----------------------------------------------------------------------------
(* Values and vectors *)

LegalV(d, v) ==
    /\ v # NA
    /\ IF IsNum(d) THEN v >= d.lo /\ v <= d.hi /\ \A j \in DOMAIN d.ni : d.ni[j] # v
                   ELSE \E j \in DOMAIN d.vals : d.vals[j] = v

FiniteD(d) == ~IsNum(d) \/ d.en
Values(d) == IF IsNum(d) THEN (d.lo .. d.hi) \ RangeOf(d.ni) ELSE RangeOf(d.vals)
PosOf(d, v) == CHOOSE j \in DOMAIN d.vals : d.vals[j] = v
\* The order of the values of a hyperparameter.
KeyOf(d, v) == IF IsNum(d) THEN v ELSE PosOf(d, v)

\* Whether u is the position in the unit interval of a value v of measure m
\* (for a sequence or a constant u is the vector itself).
AtPos(d, v, m, u) ==
    CASE IsSeq(d) -> u = PosOf(d, v) - 1
      [] d.t = "const" -> u = 1
      [] v = d.lo -> u = 0
      [] v = d.hi -> u = Q
      [] OTHER -> Abs(u * (d.mhi - d.mlo) - (m - d.mlo) * Q) <= 2 * ((d.mhi - d.mlo) + Q)

\* Whether the vector is one of the hyperparameter.  k is its number of steps
\* above the lower bound, NA if it is no integral number of steps or outside
\* of the range, u its position.
LegalU(d, k, u) ==
    CASE IsSeq(d) -> k # NA /\ k >= 0 /\ k < Len(d.vals)
      [] d.t = "const" -> k = 1
      [] d.t = "float" -> u >= 0 /\ u <= Q
      [] OTHER -> k # NA /\ k >= 0 /\ k < d.n

----------------------------------------------------------------------------
(* Neighbours *)

NeighV(d, v) ==
    IF d.t = "ord" THEN {d.vals[j] : j \in {PosOf(d, v) - 1, PosOf(d, v) + 1} \cap DOMAIN d.vals}
    ELSE Values(d) \ {v}

\* How many of n can be had.
Available(d, v, n) ==
    IF d.t = "float" THEN n
    ELSE IF d.t = "ord" THEN Min({n, Cardinality(NeighV(d, v))})
    ELSE Min({n, d.n - 1})

NumNeighbours(d, v) ==
    IF d.t = "float" THEN NA
    ELSE IF d.t = "ord" THEN Cardinality(NeighV(d, v))
    ELSE d.n - 1

----------------------------------------------------------------------------
(* Drawing *)

\* A count c of n draws with probability w/t is plausible (seven standard
\* deviations).
Plausible(c, n, w, t) ==
    LET mean == (n * w) \div t
        dev == Abs(c - mean)
    IN IF w = 0 THEN c = 0
       ELSE dev <= 6 \/ (dev - 1) * (dev - 1) <= 49 * Min({mean + 1, n - mean + 1})

Possible(d, v) == LegalV(d, v) /\ (d.ws => d.w[PosOf(d, v)] > 0)

----------------------------------------------------------------------------
(* Derived hyperparameters and equality *)

ToUniform(d) == [d EXCEPT !.pr = "u", !.ws = FALSE]

\* Conversions between integers and floats say nothing about meta data.
ToFloat(d) == [d EXCEPT !.t = "float", !.n = NA, !.ni = <<>>,
                          !.clo = d.lo, !.fhi = d.hi, !.cn = d.n]
ToInteger(d) == [d EXCEPT !.t = "int", !.lo = d.clo, !.hi = d.fhi, !.n = d.cn, !.def = d.rdef, !.dint = TRUE]

WeightOf(d, j) == IF d.ws THEN d.w[j] ELSE 1
TotalOf(d) == IF d.ws THEN SumW(d.w) ELSE Len(d.vals)

\* Attributes are compared as far as they exist for the kind.  o.pw: the
\* probabilities of the choices in millionths.
SameRange(d, o) ==
    /\ d.t = o.t
    /\ IsNum(d) => d.lo = o.lo /\ d.hi = o.hi /\ d.log = o.log
    /\ ~IsNum(d) => d.vals = o.vals
SamePrior(d, o) ==
    /\ IsNum(d) => d.pr = o.pr
    /\ IsNum(d) /\ d.pr = "n" => d.mu = o.mu /\ d.sg = o.sg
    /\ IsNum(d) /\ d.pr = "b" => d.al = o.al /\ d.be = o.be
    /\ d.t = "cat" => /\ Len(o.pw) = Len(d.vals)
                      /\ \A j \in DOMAIN d.vals :
                            Abs(o.pw[j] * TotalOf(d) - WeightOf(d, j) * 1000000) <= TotalOf(d)

HpEq(a, b) ==
    /\ a.name = b.name /\ a.t = b.t /\ a.def = b.def
    /\ IF a.t = "cat" THEN
          \* neither the order of the choices nor meta data matter
          /\ Len(a.vals) = Len(b.vals)
          /\ \A i \in DOMAIN a.vals : \E j \in DOMAIN b.vals :
                /\ a.vals[i] = b.vals[j]
                /\ WeightOf(a, i) * TotalOf(b) = WeightOf(b, j) * TotalOf(a)
       ELSE /\ a.meta = b.meta
            /\ IF IsNum(a) THEN /\ a.lo = b.lo /\ a.hi = b.hi /\ a.log = b.log /\ a.pr = b.pr
                                /\ a.pr = "n" => a.mu = b.mu /\ a.sg = b.sg
                                /\ a.pr = "b" => a.al = b.al /\ a.be = b.be
               ELSE a.vals = b.vals
=============================================================================
