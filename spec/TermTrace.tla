----------------------------- MODULE TermTrace ------------------------------
(***************************************************************************)
(* Validates histories of making, comparing, copying and evaluating        *)
(* conditions and forbidden clauses on their own, outside of any space.    *)
(*                                                                         *)
(*  P   slots of hyperparameters; several of them may have the same name.  *)
(*      p.h is the hyperparameter as in CSCore, its fingerprint h.fp says  *)
(*      which ones are equal                                               *)
(*  T   slots of terms: [k, c, t, at] with k "cond" or "forb", c the slot  *)
(*      of the child, t the term over slots of hyperparameters, and at the *)
(*      atoms below it in order, as pairs of identity and term             *)
(***************************************************************************)
EXTENDS CSOps, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, P, T

vars == <<tid, l, P, T>>

Init == tid \in DOMAIN H /\ l = 1 /\ P = <<>> /\ T = <<>>

Upd(f, k, v) == (k :> v) @@ f
Drop(k) == [j \in DOMAIN T \ {k} |-> T[j]]
Fail(ok, clause) == IF ok THEN {} ELSE {clause}
Same(bad) == [bad |-> bad, P |-> P, T |-> T]

Hs == [i \in DOMAIN P |-> P[i]]
Fp == [i \in DOMAIN P |-> P[i].fp]

Ops == {"AND", "OR"}
Rels == {"RLT", "RGT", "REQ"}
Orderable(h) == h.t \in {"ord", "int", "float"}

----------------------------------------------------------------------------
(* Which terms can be made *)

\* e: k, op, c, p, v, vs, lft, rgt, cs; alien says that some argument is neither
\* a hyperparameter nor a term where one is needed
AtomOk(e) ==
    IF e.op \in Rels THEN ~e.alien
    ELSE LET h == P[e.p]
         IN /\ (e.k = "cond" => P[e.c].fp # h.fp)
            /\ (e.op \in {"LT", "GT"} => Orderable(h))
            /\ IF e.op = "IN" THEN \A j \in DOMAIN e.vs : Legal(h, e.vs[j]) ELSE Legal(h, e.v)

ConjOk(e) ==
    /\ ~e.alien
    /\ \A j \in DOMAIN e.cs : T[e.cs[j]].k = e.k
    /\ e.k = "cond" => /\ Len(e.cs) >= 2
                       /\ \A i, j \in DOMAIN e.cs : P[T[e.cs[i]].c].fp = P[T[e.cs[j]].c].fp

TermOk(e) == IF e.op \in Ops THEN ConjOk(e) ELSE AtomOk(e)

\* keep the first of those with the same identity
Distinct(s) ==
    FoldLeft(LAMBDA acc, a : IF \E j \in DOMAIN acc : acc[j][1] = a[1] THEN acc ELSE Append(acc, a),
             <<>>, s)

TermOf(e) ==
    IF e.op \in Ops
    THEN [k |-> e.k, c |-> T[e.cs[1]].c,
          t |-> [op |-> e.op, cs |-> [j \in DOMAIN e.cs |-> T[e.cs[j]].t]],
          at |-> Distinct(FoldLeft(LAMBDA acc, s : acc \o T[s].at, <<>>, e.cs))]
    ELSE LET t == CASE e.op \in Rels -> [op |-> e.op, l |-> e.lft, r |-> e.rgt]
                    [] e.op = "IN"   -> [op |-> e.op, p |-> e.p, vs |-> e.vs]
                    [] OTHER         -> [op |-> e.op, p |-> e.p, v |-> e.v]
         IN [k |-> e.k, c |-> IF e.k = "cond" THEN e.c ELSE "", t |-> t, at |-> << <<e.s, t>> >>]

----------------------------------------------------------------------------
(* What a term says about itself: with fingerprints for hyperparameters *)

AtomParents(t) == IF t.op \in Rels THEN <<t.l, t.r>> ELSE <<t.p>>

TermIs(x, o, clause) ==
    Fail(o.k = x.k /\ o.t = Rename(x.t, Fp), clause \o ".term")
    \cup Fail(x.k = "cond" => o.child = P[x.c].fp, clause \o ".child")
    \cup Fail(o.at = [j \in DOMAIN x.at |-> Rename(x.at[j][2], Fp)], clause \o ".literals")
    \cup Fail(x.k = "cond" => o.parents = [j \in DOMAIN x.at |-> Fp[x.at[j][2].p]],
              clause \o ".parents")

EvHp(e) == [bad |-> {}, P |-> Upd(P, e.s, e.h), T |-> T]

EvTerm(e) ==
    [bad |-> IF ~TermOk(e) THEN Fail(e.err # "", "term.accepted")
                                \cup Fail(e.err \in {"", "VALUE", "TYPE", "ILLEGAL"}, "term.kind")
             ELSE IF e.err # "" THEN {"term.rejected"}
             ELSE TermIs(TermOf(e), e.o, "term"),
     P |-> P,
     T |-> IF TermOk(e) /\ e.err = "" THEN Upd(T, e.s, TermOf(e)) ELSE Drop(e.s)]

----------------------------------------------------------------------------
(* Equality: up to the order of components.  Whether the order of the      *)
(* values of an "in" matters is left open.                                 *)

RECURSIVE Exactly(_, _)
Exactly(a, b) ==
    /\ TermEq(a, b)
    /\ CASE a.op \in Ops ->
                /\ \A i \in DOMAIN a.cs : \E j \in DOMAIN b.cs : Exactly(a.cs[i], b.cs[j])
                /\ \A j \in DOMAIN b.cs : \E i \in DOMAIN a.cs : Exactly(a.cs[i], b.cs[j])
         [] a.op = "IN" -> a.vs = b.vs
         [] OTHER -> TRUE

SameKind(a, b) == a.k = b.k
SameChild(a, b) == a.k = "cond" => P[a.c].fp = P[b.c].fp

EvEq(e) ==
    LET a == T[e.a]  b == T[e.b]
        ta == Rename(a.t, Fp)  tb == Rename(b.t, Fp)
        alike == SameKind(a, b) /\ TermEq(ta, tb)
        exact == alike /\ Exactly(ta, tb)
    IN Same(IF e.err # "" THEN {"termeq.err"} ELSE
            Fail(exact /\ SameChild(a, b) => e.eq, "termeq.equal")
            \cup Fail(~(alike /\ SameChild(a, b)) => ~e.eq, "termeq.different")
            \cup Fail(e.eq = e.qe, "termeq.symmetric")
            \cup Fail(e.ne = ~e.eq, "termeq.negation")
            \cup Fail(e.other = FALSE, "termeq.other")
            \* the same condition, for whatever child
            \cup Fail(a.k = "cond" /\ exact => e.onparent, "termeq.onparent")
            \cup Fail(a.k = "cond" /\ b.k = "cond" /\ ~alike => ~e.onparent, "termeq.onparent"))

\* a copy has its own identity, and so have its atoms
EvCopy(e) ==
    LET x == T[e.s]
        y == [x EXCEPT !.at = [j \in DOMAIN @ |-> << e.s2 \o "/" \o ToString(j), @[j][2]>>]]
    IN [bad |-> IF e.err # "" THEN {"termcopy.err"}
                ELSE TermIs([x EXCEPT !.at = IF e.dup THEN <<>> ELSE @],
                            [e.o EXCEPT !.at = IF e.dup THEN <<>> ELSE @,
                                        !.parents = IF e.dup THEN <<>> ELSE @], "termcopy")
                     \cup Fail(e.eq, "termcopy.equal") \cup Fail(e.apart, "termcopy.shared"),
        P |-> P,
        T |-> IF e.err = "" /\ ~e.dup THEN Upd(T, e.s2, y) ELSE Drop(e.s2)]

----------------------------------------------------------------------------
(* Evaluation: e.xs[j] are the values by slot, e.out per form of asking *)

RECURSIVE Under(_)
Under(t) ==
    CASE t.op \in Ops -> UNION {Under(t.cs[j]) : j \in DOMAIN t.cs}
      [] t.op \in Rels -> {t.l, t.r}
      [] OTHER -> {t.p}

EvEval(e) ==
    LET x == T[e.s]
        val(j) == [i \in DOMAIN P |->
                     LET m == {q \in DOMAIN e.xs[j] : e.xs[j][q][1] = i}
                     IN IF m = {} THEN NA ELSE e.xs[j][CHOOSE q \in m : TRUE][2]]
        legal(j) == \A i \in Under(x.t) : val(j)[i] = NA \/ Legal(P[i], val(j)[i])
        want(j) == IF x.k = "cond" THEN Holds(P, x.t, val(j)) ELSE FHolds(x.t, val(j))
    IN Same(UNION {IF e.out[f].err # "" THEN {"termeval.err." \o e.out[f].how}
                   ELSE Fail(\A j \in DOMAIN e.xs : legal(j) => e.out[f].r[j] = want(j),
                             "termeval." \o e.out[f].how)
                   : f \in DOMAIN e.out})

----------------------------------------------------------------------------
Known(e) ==
    CASE e.op = "term" /\ e.top \in Ops -> RangeOf(e.cs) \subseteq DOMAIN T
      [] e.op = "termeq" -> {e.a, e.b} \subseteq DOMAIN T
      [] e.op \in {"termcopy", "termeval"} -> e.s \in DOMAIN T
      [] OTHER -> TRUE

Step(e) ==
    CASE e.op = "hp"       -> EvHp(e)
      [] e.op = "term"     -> EvTerm([e EXCEPT !.op = e.top])
      [] e.op = "termeq"   -> EvEq(e)
      [] e.op = "termcopy" -> EvCopy(e)
      [] e.op = "termeval" -> EvEval(e)
      [] e.op = "hang"     -> Same({"hang." \o e.what})
      [] e.op = "crash"    -> Same({"crash." \o e.what})

Next ==
    /\ l <= Len(H[tid].ev)
    /\ LET e == H[tid].ev[l]
           r == IF Known(e) THEN Step(e) ELSE Same({})
       IN /\ IF r.bad = {} THEN TRUE
             ELSE PrintT("BAD " \o ToJson([tid |-> tid, l |-> l, clauses |-> r.bad]))
          /\ P' = r.P
          /\ T' = r.T
    /\ l' = l + 1
    /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

\* Sanity of the specification itself on the states it reaches
Consistent ==
    \A a \in DOMAIN T :
        /\ Under(T[a].t) \subseteq DOMAIN P
        /\ Len(T[a].at) >= 1
        /\ TermEq(T[a].t, T[a].t) /\ Exactly(T[a].t, T[a].t)
        /\ \A b \in DOMAIN T : TermEq(T[a].t, T[b].t) = TermEq(T[b].t, T[a].t)
=============================================================================
