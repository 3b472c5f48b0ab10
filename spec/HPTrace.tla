------------------------------ MODULE HPTrace -------------------------------
(***************************************************************************)
(* Validates histories of calls on single hyperparameters, recorded from   *)
(* the implementation.  D maps slots to declarations of hyperparameters.   *)
(* As in CSTrace every step consumes one event and names the clauses that  *)
(* the observation breaks.                                                 *)
(***************************************************************************)
EXTENDS HPCore, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, D

vars == <<tid, l, D>>

Init == tid \in DOMAIN H /\ l = 1 /\ D = <<>>

Upd(f, k, v) == (k :> v) @@ f
Drop(k) == [j \in DOMAIN D \ {k} |-> D[j]]
Fail(ok, clause) == IF ok THEN {} ELSE {clause}
Same(bad) == [bad |-> bad, D |-> D]

----------------------------------------------------------------------------

\* e.o: what the object says about itself
Attributes(d, o, clause, meta) ==
    Fail(o.name = d.name, clause \o ".name")
    \cup Fail(SameRange(d, o), clause \o ".range")
    \cup Fail(SamePrior(d, o), clause \o ".prior")
    \cup Fail(meta => o.meta = d.meta, clause \o ".meta")
    \cup Fail(o.n = d.n, clause \o ".size")
    \cup Fail(DefaultIs(d, o.def, o.mdef, o.tol), clause \o ".default")
    \cup Fail(LegalV(d, o.def) /\ o.dlegal, clause \o ".default.legal")
    \cup Fail(~IsNum(d) => o.ks = d.ks /\ o.dty, clause \o ".kinds")

Declare(d, o) == [d EXCEPT !.def = o.def, !.dgiven = TRUE, !.dint = TRUE,
                           !.rdef = o.rdef, !.meta = o.meta]

\* A hyperparameter of declaration d, if d is legal
Made(d, e, clause, meta) ==
    [bad |-> IF ~DeclOk(d) THEN Fail(e.err # "", clause \o ".accepted")
             ELSE IF e.err # "" THEN {clause \o ".rejected"}
             ELSE Attributes(d, e.o, clause, meta),
     D |-> IF DeclOk(d) /\ e.err = "" /\ LegalV(d, e.o.def) THEN Upd(D, e.s, Declare(d, e.o))
           ELSE Drop(e.s)]

EvDecl(e) == Made(e.d, e, "decl", TRUE)

\* Values in different forms.  x.v value, x.m measure; per form lg legal, u
\* the position and uc the vector of it, ul whether that is legal, b the value
\* of this vector, ty whether that has the right type.
EvValues(e) ==
    LET d == D[e.s]
    IN Same(UNION {
        LET x == e.xs[j]
        IN UNION {LET f == x.forms[i] IN
                Fail(f.lg = LegalV(d, x.v), "value.legal." \o f.how)
                \cup (IF ~LegalV(d, x.v) THEN {} ELSE
                      Fail(f.err = "", "value.err." \o f.how)
                      \cup (IF f.err # "" THEN {} ELSE
                            Fail(AtPos(d, x.v, x.m, f.u), "value.vector." \o f.how)
                            \cup Fail(f.ul, "value.vectorlegal." \o f.how)
                            \cup Fail(f.b = x.v, "value.back." \o f.how)
                            \cup Fail(f.ty, "value.type." \o f.how)))
              : i \in DOMAIN x.forms} : j \in DOMAIN e.xs}
        \* the order of the values is the order of the vectors
        \cup Fail(\A i, j \in DOMAIN e.xs :
                    LET a == e.xs[i]  b == e.xs[j] IN
                    (/\ d.t # "cat" /\ LegalV(d, a.v) /\ LegalV(d, b.v)
                     /\ a.forms[1].err = "" /\ b.forms[1].err = ""
                     /\ KeyOf(d, a.v) < KeyOf(d, b.v)) => a.forms[1].uc < b.forms[1].uc,
                  "value.order"))

\* Vectors.  x.k steps, x.u position; per form lg legal, v value of measure m,
\* same whether the vector of that value is the vector again (up to rounding).
EvVectors(e) ==
    LET d == D[e.s]
    IN Same(UNION {
        LET x == e.xs[j]
        IN UNION {LET f == x.forms[i] IN
                Fail(f.lg = LegalU(d, x.k, x.u), "vector.legal." \o f.how)
                \cup (IF ~LegalU(d, x.k, x.u) THEN {} ELSE
                      Fail(f.err = "", "vector.err." \o f.how)
                      \cup (IF f.err # "" THEN {} ELSE
                            Fail(LegalV(d, f.v), "vector.value." \o f.how)
                            \cup Fail(f.same, "vector.back." \o f.how)
                            \cup Fail(f.ty, "vector.type." \o f.how)
                            \cup Fail(LegalV(d, f.v) => AtPos(d, f.v, f.m, x.u), "vector.place." \o f.how)))
              : i \in DOMAIN x.forms} : j \in DOMAIN e.xs})

EvNeigh(e) ==
    LET d == D[e.s]
        out == RangeOf(e.out)
    IN Same(IF ~LegalV(d, e.v) THEN {}
            ELSE IF e.err # "" THEN {"hpneigh.err"}
            ELSE Fail(\A v \in out : LegalV(d, v), "hpneigh.legal")
                 \cup Fail(IF d.t = "float" THEN ~e.own ELSE e.v \notin out, "hpneigh.self")
                 \cup Fail(IF d.t = "float" THEN e.exact ELSE Cardinality(out) = Len(e.out),
                           "hpneigh.unique") \* floats may be too close to have different codes
                 \cup Fail(Len(e.out) = Available(d, e.v, e.n), "hpneigh.count")
                 \cup Fail(d.t = "ord" => out \subseteq NeighV(d, e.v), "hpneigh.adjacent")
                 \cup Fail(e.again, "hpneigh.seed")
                 \cup Fail(e.ty, "hpneigh.type")
                 \cup Fail(e.forms, "hpneigh.forms"))

\* neighbours of an illegal vector are refused
EvBadNeigh(e) == Same(Fail(e.err # "", "hpneigh.illegal"))

\* get_num_neighbors
EvCount(e) ==
    LET d == D[e.s]
    IN Same(IF ~LegalV(d, e.v) THEN {}
            ELSE Fail(e.err = "" /\ e.out = NumNeighbours(d, e.v), "hpneigh.number"))

EvDraw(e) ==
    LET d == D[e.s]
    IN Same(IF e.err # "" THEN {"draw.err"}
            ELSE Fail(Len(e.out) = e.n, "draw.count")
                 \cup Fail(e.scalar = e.wantscalar, "draw.scalar")
                 \cup Fail(\A j \in DOMAIN e.out : LegalV(d, e.out[j]), "draw.legal")
                 \cup Fail(\A j \in DOMAIN e.out : LegalV(d, e.out[j]) => Possible(d, e.out[j]), "draw.zero")
                 \cup Fail(e.vlegal, "draw.vector")
                 \cup Fail(e.ty, "draw.type")
                 \cup Fail(e.again, "draw.seed")
                 \cup Fail(e.forms, "draw.forms"))

\* Counts over the values (or over bins, with weights e.w) of many draws.
EvFreq(e) ==
    LET d == D[e.s]
        w == IF IsSeq(d) THEN [j \in DOMAIN d.vals |-> WeightOf(d, j)] ELSE e.w
    IN Same(IF e.err # "" THEN {"draw.err"}
            ELSE Fail(SumW(e.cnt) = e.n, "draw.legal")
                 \cup Fail(\A j \in DOMAIN e.cnt : Plausible(e.cnt[j], e.n, w[j], SumW(w)), "draw.freq"))

\* Densities.  x.v value, pv/pu density of the value and of its vector, qv
\* the density in millionths; x.dist distance from the mode
EvDensity(e) ==
    LET d == D[e.s]
        leg == {j \in DOMAIN e.xs : LegalV(d, e.xs[j].v)}
        disc == IF d.t = "int" /\ d.pr # "u" THEN ".discretized" ELSE ""
        flat == d.pr = "u" /\ ~d.ws
        Dist(j) == e.xs[j].dist
        Pv(j) == e.xs[j].pv
    IN Same(IF e.err # "" THEN {"density.err"} ELSE
            Fail(\A j \in DOMAIN e.xs \ leg : Pv(j) = e.zero, "density.illegal")
            \cup Fail(\A j \in leg : Pv(j) >= e.zero, "density.negative")
            \cup Fail(\A j \in leg : Pv(j) = e.xs[j].pu, "density.vector")
            \cup Fail(\A j \in leg : Pv(j) <= e.max, "density.max" \o disc)
            \cup Fail(flat => \A j \in leg : Pv(j) = e.max, "density.flat" \o disc)
            \cup Fail(\A j \in leg : d.ws => (Pv(j) = e.zero <=> ~Possible(d, e.xs[j].v)), "density.zero")
            \cup Fail(\A i, j \in leg : d.ws =>
                        LET a == d.w[PosOf(d, e.xs[i].v)]
                            b == d.w[PosOf(d, e.xs[j].v)]
                        IN (a < b => Pv(i) < Pv(j)) /\ (a = b => Pv(i) = Pv(j)),
                      "density.weights")
            \* the density falls on both sides of the mode
            \cup Fail(\A i, j \in leg :
                        (d.pr # "u" /\ ((Dist(i) >= 0 /\ Dist(i) < Dist(j))
                                        \/ (Dist(i) <= 0 /\ Dist(i) > Dist(j))))
                           => Pv(i) >= Pv(j), "density.shape")
            \cup Fail(\A j \in leg : (d.pr # "u" /\ e.xs[j].mode) => Pv(j) = e.max,
                      "density.mode" \o disc)
            \cup Fail((e.all /\ FiniteD(d)) =>
                         Abs(FoldLeft(LAMBDA a, x : a + (IF LegalV(d, x.v) THEN x.qv ELSE 0), 0, e.xs)
                             - 1000000) <= 1000,
                      "density.sum" \o disc))

\* One hyperparameter derived from another: e.d its declaration for a copy
\* with changes.  The source stays as it was and is equal iff nothing changed.
EvDerive(e) ==
    LET s == D[e.src]
        d == CASE e.how = "uniform" -> ToUniform(s)
               [] e.how = "float" -> ToFloat(s)
               [] e.how = "integer" -> ToInteger(s)
               [] e.how = "same" -> s
               [] OTHER -> e.d
        m == Made(d, e, e.how, e.how \notin {"float", "integer"})
        equal == HpEq(s, Declare(d, e.o))
    IN IF e.err # "" \/ m.bad # {} THEN m
       ELSE [m EXCEPT !.bad = Fail(e.eq = equal, e.how \o ".equal")
                              \cup Fail(e.qe = equal, e.how \o ".equal")
                              \cup Fail(e.kept, e.how \o ".source")]

EvEq(e) ==
    LET equal == HpEq(D[e.s], D[e.s2])
    IN Same(Fail(e.eq = e.qe, "hpeq.symmetric")
            \cup Fail(e.eq = ~e.ne, "hpeq.ne")
            \cup Fail(equal => e.eq, "hpeq.same")
            \cup Fail(~equal => ~e.eq, "hpeq.differ"))

\* check_order, get_order and get_value of an ordinal
EvOrder(e) ==
    LET d == D[e.s]
    IN Same(Fail(e.err = "" /\ \A j \in DOMAIN e.xs :
                    /\ e.xs[j].pos = PosOf(d, e.xs[j].v) - 1
                    /\ e.xs[j].at = e.xs[j].v
                    /\ e.xs[j].less = {k \in DOMAIN d.vals : k > PosOf(d, e.xs[j].v)}, "order"))

----------------------------------------------------------------------------
Known(e) == CASE e.op \in {"hang", "crash", "decl"} -> TRUE
              [] e.op = "hpeq" -> {e.s, e.s2} \subseteq DOMAIN D
              [] e.op = "derive" -> e.src \in DOMAIN D
              [] OTHER -> e.s \in DOMAIN D

Step(e) ==
    CASE e.op = "decl"    -> EvDecl(e)
      [] e.op = "values"  -> EvValues(e)
      [] e.op = "vectors" -> EvVectors(e)
      [] e.op = "hpneigh" -> EvNeigh(e)
      [] e.op = "badneigh" -> EvBadNeigh(e)
      [] e.op = "count"   -> EvCount(e)
      [] e.op = "draw"    -> EvDraw(e)
      [] e.op = "freq"    -> EvFreq(e)
      [] e.op = "density" -> EvDensity(e)
      [] e.op = "derive"  -> EvDerive(e)
      [] e.op = "hpeq"    -> EvEq(e)
      [] e.op = "order"   -> EvOrder([e EXCEPT !.xs = [j \in DOMAIN e.xs |->
                                       [e.xs[j] EXCEPT !.less = RangeOf(e.xs[j].less)]]])
      [] e.op = "hang"    -> Same({"hang." \o e.what})
      [] e.op = "crash"   -> Same({"crash." \o e.what})

Next ==
    /\ l <= Len(H[tid].ev)
    /\ LET e == H[tid].ev[l]
           r == IF Known(e) THEN Step(e) ELSE Same({})
       IN /\ IF r.bad = {} THEN TRUE
             ELSE PrintT("BAD " \o ToJson([tid |-> tid, l |-> l, clauses |-> r.bad]))
          /\ D' = r.D
    /\ l' = l + 1
    /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

\* What the specification holds for declared is a legal declaration.
Declared == \A s \in DOMAIN D : DeclOk(D[s]) /\ LegalV(D[s], D[s].def)
=============================================================================
