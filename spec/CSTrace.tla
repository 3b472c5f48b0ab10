------------------------------ MODULE CSTrace -------------------------------
(***************************************************************************)
(* Validates histories recorded from the implementation.                   *)
(*                                                                         *)
(* Every line of the trace file is one history: the public calls of one    *)
(* program in order, with arguments, outcome, and observed state.  The     *)
(* state of the specification is the abstract state of the program: the    *)
(* spaces S and configurations C by slot.  Each step consumes one event,   *)
(* computes the outcome the specification prescribes, and collects the     *)
(* names of the clauses the observation breaks.  The verdict is total: a   *)
(* broken clause is reported, and the rest of the history still checked.   *)
(* When an addition was accepted that should not have been, or the other   *)
(* way round, the specification has lost the state of that program and     *)
(* only consumes the rest of its history; a configuration that is not what *)
(* it should be is forgotten.                                              *)
(***************************************************************************)
EXTENDS CSOps, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, S, C, lost

vars == <<tid, l, S, C, lost>>

Init == /\ tid \in DOMAIN H
        /\ l = 1
        /\ S = <<>>
        /\ C = <<>>
        /\ lost = FALSE

----------------------------------------------------------------------------
(* Reading observations *)

Upd(f, k, v) == (k :> v) @@ f

Fail(ok, clause) == IF ok THEN {} ELSE {clause}

\* <<id, code>> pairs to an assignment of sp
Assign(sp, pairs) ==
    FoldLeft(LAMBDA x, p : IF p[1] \in sp.d THEN [x EXCEPT ![p[1]] = p[2]] ELSE x,
             Blank(sp), pairs)

KnownIds(sp, pairs) == \A j \in DOMAIN pairs : pairs[j][1] \in sp.d

\* An observed configuration: x its items in order, vn the ids with a value
\* in the vector, ct the ids it contains, ln its length, ix whether `at` and
\* `index_of` place every value of the vector, bt whether all items have the
\* type of a value.
CfgShape(sp, o) ==
    Fail(KnownIds(sp, o.x), "cfg.ids")
    \cup Fail([j \in DOMAIN o.x |-> o.x[j][1]]
                = SelectSeq(sp.ord, LAMBDA i : i \in {o.x[j][1] : j \in DOMAIN o.x}),
              "cfg.order")
    \cup Fail({o.x[j][1] : j \in DOMAIN o.x} = RangeOf(o.vn), "cfg.vector")
    \cup Fail({o.x[j][1] : j \in DOMAIN o.x} = RangeOf(o.ct), "cfg.contains")
    \cup Fail(o.ln = Cardinality(sp.d), "cfg.len")
    \cup Fail(o.bt, "cfg.type")

CfgOf(sp, o) == IF KnownIds(sp, o.x) THEN Assign(sp, o.x) ELSE Blank(sp)

\* The observation o is the configuration x.
CfgIs(sp, o, x, clause) ==
    CfgShape(sp, o) \cup Fail(CfgOf(sp, o) = x, clause)

\* The observation o is some valid configuration.
CfgValid(sp, o, clause) ==
    CfgShape(sp, o) \cup Fail(Valid(sp, CfgOf(sp, o)), clause)

ErrOk(err, allowed, clause) ==
    IF allowed = {} THEN Fail(err = "", clause \o ".spurious")
    ELSE IF err = "" THEN {clause \o ".accepted"}
    ELSE Fail(err \in allowed, clause \o ".kind")

\* <<id, seq>> pairs: the sequence listed for i
Listed(ps, i) == LET js == {j \in DOMAIN ps : ps[j][1] = i}
                 IN IF js = {} THEN <<>> ELSE ps[CHOOSE j \in js : TRUE][2]

\* An observed space.
SpaceIs(sp, o) ==
    IF o.err # "" THEN {"space.unreadable"} ELSE
    Fail(o.ord = sp.ord, "space.order")
    \cup Fail(o.at = o.ord, "space.at")
    \cup Fail(o.ix = [j \in DOMAIN o.ord |-> j], "space.index")
    \cup Fail(o.ln = Cardinality(sp.d), "space.len")
    \cup Fail(o.nm = sp.nm, "space.meta")
    \cup (IF RangeOf(o.ord) # sp.d THEN {} ELSE
             Fail([j \in DOMAIN o.ord |-> sp.h[o.ord[j]].fp] = o.fps, "space.hp")
        \cup Fail(o.roots = SelectSeq(sp.ord, LAMBDA i : i \in Roots(sp)), "space.roots")
        \cup Fail(o.nonroots = SelectSeq(sp.ord, LAMBDA i : i \notin Roots(sp)), "space.nonroots")
        \cup Fail(/\ RangeOf([j \in DOMAIN o.conds |-> o.conds[j].c]) = sp.d \ Roots(sp)
                  /\ \A j \in DOMAIN o.conds : TermEq(o.conds[j].t, sp.cond[o.conds[j].c]),
                  "space.conditions")
        \cup Fail(SameTerms(o.forbs, sp.forb), "space.forbidden")
        \cup Fail(\A i \in sp.d : RangeOf(Listed(o.pa, i)) = ParentsOf(sp, i), "space.parents_of")
        \cup Fail(\A i \in sp.d : RangeOf(Listed(o.ch, i)) = ChildrenOf(sp, i), "space.children_of")
        \cup Fail(\A i \in sp.d :
                    LET t == Listed(o.pc, i)
                    IN IF sp.cond[i].op = "T" THEN t = <<>>
                       ELSE t # <<>> /\ \A j \in DOMAIN t : TermEq(t[j], sp.cond[i]),
                  "space.parent_conditions_of")
        \cup Fail(\A i \in sp.d :
                    LET t == Listed(o.cc, i)
                    IN {t[j].c : j \in DOMAIN t} = ChildrenOf(sp, i)
                       /\ \A j \in DOMAIN t : TermEq(t[j].t, sp.cond[t[j].c]),
                  "space.child_conditions_of")
        \cup ErrOk(o.deferr, {}, "default.err")
        \cup (IF o.deferr # "" THEN {} ELSE CfgIs(sp, o.def, DefaultOf(sp), "default.value")))

----------------------------------------------------------------------------
(* One operator per kind of event: [bad, S, C] *)

Without(c) == [k \in DOMAIN C \ {c} |-> C[k]]

\* Terms that were read back from the implementation, over the ids of sp.
RECURSIVE Readable(_, _)
Readable(sp, t) ==
    CASE t.op \in {"AND", "OR"} -> \A j \in DOMAIN t.cs : Readable(sp, t.cs[j])
      [] t.op \in {"RLT", "RGT", "REQ"} -> {t.l, t.r} \subseteq sp.d
      [] t.op \in {"EQ", "NE", "LT", "GT", "IN"} -> t.p \in sp.d
      [] OTHER -> FALSE

Same(bad) == [bad |-> bad, S |-> S, C |-> C]

\* sp was derived, and may be used on its own from now on.
Into(e, sp, bad) ==
    IF e.into = "" THEN Same(bad) ELSE [bad |-> bad, S |-> Upd(S, e.into, sp), C |-> C]

EvNew(e) ==
    LET sp == [EmptySpace EXCEPT !.nm = e.nm]
    IN [bad |-> SpaceIs(sp, e.obs), S |-> Upd(S, e.s, sp), C |-> C]

EvAdd(e) ==
    LET r == AddOutcome(S[e.s], e)
    IN [bad |-> ErrOk(e.err, r.err, "add")
                \cup (LET b == SpaceIs(r.sp, e.obs)
                      IN b \cup Fail(r.err = {} \/ b = {}, "add.atomic")),
        S |-> Upd(S, e.s, r.sp), C |-> C]

\* Another space that has to be the same: serialized, copied, rebuilt ...
EvSame(e) ==
    LET bad == IF e.err # "" THEN {"err"}
               ELSE SpaceIs(S[e.s], e.obs) \cup Fail(e.eq, "eq")
    IN Into(e, S[e.s], {e.tag \o "." \o b : b \in bad})

\* Values given as text: xs are <<id, text, value>>.  A value of a list is the
\* only one with that text.
EvFix(e) ==
    LET sp == S[e.s]
        Named(i, t) == {v \in RangeOf(sp.h[i].vals) : Listed(Listed(e.txt, i), v) = t}
        Want(x) == IF sp.h[x[1]].k = "d" THEN Named(x[1], x[2]) ELSE {x[3]}
        ok == \A j \in DOMAIN e.xs : Cardinality(Want(e.xs[j])) = 1
    IN Same(IF ~ok THEN Fail(e.err = "VALUE", IF e.err = "" THEN "fix.accepted" ELSE "fix.kind")
            ELSE IF e.err # "" THEN {"fix.err"}
            ELSE Fail(/\ Len(e.out) = Len(e.xs)
                      /\ \A j \in DOMAIN e.xs : Want(e.xs[j]) = {Listed(e.out, e.xs[j][1])}, "fix.value")
                 \cup Fail(e.ty, "fix.type")
                 \cup Fail(e.rest, "fix.rest"))

\* What the serialized form says to another reader
EvWritten(e) ==
    LET sp == S[e.s]
        o == e.obs
    IN Same(IF e.err # "" THEN {"written.err"} ELSE
            Fail(o.nm = sp.nm, "written.meta")
            \cup Fail(RangeOf(o.ord) = sp.d /\ Len(o.ord) = Cardinality(sp.d), "written.names")
            \cup (IF RangeOf(o.ord) # sp.d THEN {} ELSE
                     Fail([j \in DOMAIN o.ord |-> sp.h[o.ord[j]].fp] = o.fps, "written.hp")
                \cup Fail(/\ RangeOf([j \in DOMAIN o.conds |-> o.conds[j].c]) = sp.d \ Roots(sp)
                          /\ \A j \in DOMAIN o.conds : TermEq(o.conds[j].t, sp.cond[o.conds[j].c]),
                          "written.conditions")
                \cup Fail(SameTerms(o.forbs, sp.forb), "written.forbidden")))

\* Written in a pcs format and read back
EvPcs(e) ==
    LET sp == S[e.s]
        T == [i \in sp.d |-> LET t == Listed(e.txt, i)
                             IN [v \in {t[j][1] : j \in DOMAIN t} |-> Listed(t, v)]]
        hs == [i \in sp.d |-> Listed(e.hs, i)]
        im == PcsImage(sp, hs, T, e.old)
    IN Same(IF ~PcsOk(sp, e.old, e.own, e.weights) THEN Fail(e.werr # "", e.tag \o ".accepted")
            ELSE IF e.werr # "" THEN {e.tag \o ".write"}
            ELSE IF e.err # "" THEN {e.tag \o ".read"}
            ELSE {e.tag \o "." \o b : b \in SpaceIs(im, e.obs)})

EvNest(e) ==
    LET src == S[e.src]
        f == [i \in src.d |->
                LET nn == NestName(e.pre, e.del, H[tid].names[i])
                IN CHOOSE j \in DOMAIN H[tid].names : H[tid].names[j] = nn]
        fps == [i \in src.d |-> Listed(e.fps, i)]
        r == AddOutcome(S[e.s], NestBatch(src, f, fps, e.par))
    IN [bad |-> {"nest." \o b : b \in
                    ErrOk(e.err, r.err, "add") \cup SpaceIs(r.sp, e.obs)}
                \cup {"nest.src." \o b : b \in SpaceIs(src, e.srcobs)},
        S |-> Upd(S, e.s, r.sp), C |-> C]

EvNoPriors(e) ==
    LET sp == NoPriors(S[e.s])
    IN IF Forbidden(sp, DefaultOf(sp))
       THEN Same(Fail(e.err = "FORBID", "nopriors.err"))
       ELSE Into(e, sp, IF e.err # "" THEN {"nopriors.err"}
                        ELSE {"nopriors." \o b : b \in SpaceIs(sp, e.obs)})

EvSize(e) == Same(Fail(e.out = SizeOfSpace(S[e.s]), "size"))

\* Whether a clause that was added twice makes a difference is left open.
EvEqSpace(e) ==
    LET a == S[e.s]
        b == S[e.s2]
        same == SameSpace(a, b)
    IN Same(Fail(e.eq = same \/ (same /\ Len(a.forb) # Len(b.forb)), "spaceeq"))

EvMk(e) ==
    LET sp == S[e.s]
        x  == Assign(sp, e.x)
        allowed == IF e.unk THEN {"VALUE"}
                   ELSE IF e.vec THEN (IF e.lax THEN ErrKindsLax(sp, x) ELSE ErrKinds(sp, x))
                   ELSE MkErrs(sp, x, e.lax)
        kind == IF e.vec THEN "check.vector" ELSE IF e.lax THEN "check.lax" ELSE "check"
    IN [bad |-> ErrOk(e.err, allowed, kind)
                \cup (IF e.err # "" \/ allowed # {} THEN {}
                      ELSE IF e.lax THEN CfgIs(sp, e.out, x, "mk.value")
                      ELSE CfgIs(sp, e.out, x, "mk.value")),
        S |-> S,
        C |-> IF e.err = "" /\ allowed = {} /\ CfgOf(sp, e.out) = x
              THEN Upd(C, e.c, [s |-> e.s, x |-> x]) ELSE Without(e.c)]

EvSet(e) ==
    LET c == C[e.c]
        sp == S[c.s]
        r == SetOutcome(sp, c.x, e.i, e.v)
    IN [bad |-> ErrOk(e.err, r.err, "set") \cup CfgIs(sp, e.out, r.x, "set.value"),
        S |-> S,
        C |-> IF CfgOf(sp, e.out) = r.x THEN Upd(C, e.c, [s |-> c.s, x |-> r.x])
              ELSE Without(e.c)]

EvSample(e) ==
    LET sp == S[e.s]
        got == [j \in DOMAIN e.out |-> CfgOf(sp, e.out[j])]
    IN [bad |-> Fail(e.err = "", "sample.err")
                \cup Fail(e.err # "" \/ Len(e.out) = e.n, "sample.count")
                \cup Fail(e.err # "" \/ e.single = e.wantsingle, "sample.single")
                \cup UNION {CfgValid(sp, e.out[j], "sample.valid") : j \in DOMAIN e.out}
                \cup Fail(\A j \in DOMAIN got : \A i \in sp.d :
                            sp.h[i].k = "d" => got[j][i] \notin RangeOf(sp.h[i].w0),
                          "sample.zero"),
        S |-> S,
        C |-> IF e.c = "" \/ e.out = <<>> THEN C
              ELSE IF ~Valid(sp, got[1]) THEN Without(e.c)
              ELSE Upd(C, e.c, [s |-> e.s, x |-> got[1]])]

\* Of many draws, the distinct ones.
EvReach(e) ==
    LET sp == S[e.s]
        got == [j \in DOMAIN e.out |-> CfgOf(sp, e.out[j])]
        may(x) == \A i \in sp.d : sp.h[i].k = "d" => x[i] \notin RangeOf(sp.h[i].w0)
    IN Same(Fail(e.err = "", "sample.err")
            \cup Fail(e.err # "" \/ e.got = e.n, "sample.count")
            \cup UNION {CfgValid(sp, e.out[j], "sample.valid") : j \in DOMAIN e.out}
            \cup Fail(\A j \in DOMAIN got : may(got[j]), "sample.zero")
            \cup Fail(e.err # "" \/ {x \in AllValid(sp) : may(x)} \subseteq RangeOf(got),
                      "sample.reach"))

\* The same seed gives the same configurations.
EvSeeded(e) == Same(Fail(e.a = e.b, "seed"))

EvActive(e) ==
    LET sp == S[e.s]
        x == Assign(sp, e.x)
    IN Same(Fail(\/ RangeOf(e.out) = ActiveSet(sp, x)
                 \/ ~Valid(sp, x) /\ RangeOf(e.out) = RawActive(sp, x), "active"))

\* Conditions and forbidden clauses, evaluated in three ways on the same
\* assignment.
EvEval(e) ==
    LET sp == S[e.s]
        x == Assign(sp, e.x)
    IN Same(UNION {
              LET o == e.conds[j]
              IN IF o.c \notin sp.d THEN {"eval.cond.unknown"} ELSE
              LET w == Holds(sp.h, sp.cond[o.c], x)
              IN Fail(o.val = w, "eval.cond.value")
                 \cup Fail(o.vec = w, "eval.cond.vector")
                 \cup Fail(o.arr = w, "eval.cond.array")
              : j \in DOMAIN e.conds}
            \cup UNION {
              LET o == e.forbs[j]
              IN IF ~Readable(sp, o.t) THEN {"eval.forb.unknown"} ELSE
              LET w == FHolds(o.t, x)
              IN Fail(o.val = w, "eval.forb.value")
                 \cup Fail(o.vec = w, "eval.forb.vector")
                 \cup Fail(o.arr = w, "eval.forb.array")
              : j \in DOMAIN e.forbs})

EvNeigh(e) ==
    LET sp == S[e.s]
        x == Assign(sp, e.x)
        got == [j \in DOMAIN e.out |-> CfgOf(sp, e.out[j])]
        of(i) == {j \in DOMAIN got : Exchanged(sp, x, got[j]) = {i}}
        sized == {i \in sp.d : x[i] # NA /\ sp.h[i].n # 1}
        full == {i \in sized : \/ sp.h[i].t \in {"cat", "ord"}
                               \/ sp.h[i].en /\ sp.h[i].n - 1 < e.k}
    IN Same(Fail(e.err = "", "neigh.err")
            \cup UNION {CfgShape(sp, e.out[j]) : j \in DOMAIN e.out}
            \cup Fail(\A j \in DOMAIN got : got[j] # x, "neigh.self")
            \cup Fail(\A j \in DOMAIN got : Valid(sp, got[j]), "neigh.valid")
            \cup Fail(\A j \in DOMAIN got : IsExchange(sp, x, got[j]), "neigh.single")
            \cup Fail(\A i \in sized : sp.h[i].t = "ord" =>
                        {got[j] : j \in of(i)} \subseteq Exchanges(sp, x, i), "neigh.adjacent")
            \cup (IF e.err # "" THEN {} ELSE
                  Fail(\A i \in full : Exchanges(sp, x, i) \subseteq {got[j] : j \in of(i)}, "neigh.complete"))
            \cup Fail(\A i \in full : Cardinality(of(i)) = Cardinality({got[j] : j \in of(i)}), "neigh.once")
            \cup Fail(\A i \in sized \ full : Cardinality(of(i)) <= e.k, "neigh.count")
            \cup Fail(e.err # "" \/ \A i \in sized \ full :
                         (sp.h[i].n = NA /\ sp.forb = <<>>) => Cardinality(of(i)) = e.k, "neigh.count"))

EvRandNeigh(e) ==
    LET sp == S[e.s]
        x == Assign(sp, e.x)
        cand == RandomNeighbours(sp, x)
        \* there is none; there may be none
        none == cand = {} /\ \A i \in sp.d : x[i] # NA => Enumerable(sp.h[i])
    IN Same(IF SizeOfSpace(sp) \in {<<>>, <<1>>} THEN Fail(e.err = "NONEIGH", "rneigh.none")
            ELSE IF none THEN Fail(e.err \in {"VALUE", "NONEIGH"}, "rneigh.none")
            ELSE IF NearNeighbours(sp, x) = {} /\ e.err \in {"VALUE", "NONEIGH"} THEN {}
            ELSE IF e.err # "" THEN {"rneigh.err"}
            ELSE CfgShape(sp, e.out)
                 \cup Fail(IsNeighbour(sp, x, CfgOf(sp, e.out)), "rneigh.single")
                 \cup Fail(\A i \in sp.d : sp.h[i].t = "ord" =>
                             (CfgOf(sp, e.out)[i] = x[i]
                              \/ CfgOf(sp, e.out)[i] \in NeighbourValues(sp.h[i], x[i])),
                           "rneigh.adjacent"))

EvGrid(e) ==
    LET sp == S[e.s]
        vs == [i \in sp.d |-> RangeOf(Listed(e.vs, i))]
        got == [j \in DOMAIN e.out |-> CfgOf(sp, e.out[j])]
        want == IF sp.d = {} THEN {} ELSE AllOver(sp, vs)
    IN Same(Fail(e.err = "", "grid.err")
            \cup UNION {CfgShape(sp, e.out[j]) : j \in DOMAIN e.out}
            \cup Fail(RangeOf(got) \subseteq want, "grid.sound")
            \cup Fail(e.err # "" \/ want \subseteq RangeOf(got), "grid.complete")
            \cup Fail(Cardinality(RangeOf(got)) = Len(got), "grid.once"))

EvDeact(e) ==
    LET sp == S[e.s]
        x == Assign(sp, e.x)
        r == DeactOutcome(sp, x)
    IN Same(ErrOk(e.err, r.err, "deact")
            \cup (IF e.err # "" \/ r.err # {} THEN {} ELSE CfgIs(sp, e.out, r.x, "deact.value")))

EvImpute(e) ==
    LET sp == S[e.s]
        x == Assign(sp, e.x)
        r == ImputeOutcome(sp, x)
    IN Same(ErrOk(e.err, r.err, "impute")
            \cup (IF e.err # "" \/ r.err # {} THEN {} ELSE CfgIs(sp, e.out, r.x, "impute.value")))

\* A configuration that comes from elsewhere than a constructor or a draw. What
\* becomes of it afterwards is judged like for any other.
EvOrigin(e) ==
    LET sp == S[e.s]
        got == CfgOf(sp, e.out)
        exact == e.how \in {"default", "deepcopy", "pickle", "values", "deact"}
        x == IF e.how = "default" THEN DefaultOf(sp) ELSE C[e.src].x
        clause == "origin." \o e.how
    IN [bad |-> IF e.err # "" THEN {"origin.err"}
                ELSE IF exact THEN CfgIs(sp, e.out, x, clause)
                ELSE CfgValid(sp, e.out, clause),
        S |-> S,
        C |-> IF e.err # "" \/ ~Valid(sp, got) \/ (exact /\ got # x) THEN Without(e.c)
              ELSE Upd(C, e.c, [s |-> e.s, x |-> got])]

EvCfgEq(e) ==
    LET a == C[e.c]
        b == C[e.c2]
        same == a.x = b.x /\ SameSpace(S[a.s], S[b.s])
    IN Same(Fail(e.eq = same, "cfgeq.eq") \cup Fail(same => e.hash, "cfgeq.hash"))

\* Everything that is alive, observed again.
EvAlive(e) ==
    Same({"alive." \o b : b \in
            UNION {SpaceIs(S[e.ss[j][1]], e.ss[j][2]) : j \in DOMAIN e.ss}
       \cup UNION {CfgIs(S[C[e.cs[j][1]].s], e.cs[j][2], C[e.cs[j][1]].x, "config")
                    : j \in {k \in DOMAIN e.cs : e.cs[k][1] \in DOMAIN C}}})

\* Events about a configuration the specification does not know, or that
\* start from one that is not valid, are consumed.
Unjudged(e) ==
    \/ lost
    \/ e.op = "set" /\ e.c \notin DOMAIN C
    \/ e.op = "origin" /\ e.how # "default"
         /\ (e.src \notin DOMAIN C \/ ~Valid(S[e.s], C[e.src].x))
    \/ e.op = "cfgeq" /\ ~({e.c, e.c2} \subseteq DOMAIN C)
    \/ e.op \in {"neigh", "rneigh", "impute"} /\ ~Valid(S[e.s], Assign(S[e.s], e.x))

Step(e) ==
    CASE e.op = "new"      -> EvNew(e)
      [] e.op = "add"      -> EvAdd(e)
      [] e.op = "same"     -> EvSame(e)
      [] e.op = "fix"      -> EvFix(e)
      [] e.op = "written"  -> EvWritten(e)
      [] e.op = "pcs"      -> EvPcs(e)
      [] e.op = "nest"     -> EvNest(e)
      [] e.op = "nopriors" -> EvNoPriors(e)
      [] e.op = "size"     -> EvSize(e)
      [] e.op = "eqspace"  -> EvEqSpace(e)
      [] e.op = "mk"       -> EvMk(e)
      [] e.op = "set"      -> EvSet(e)
      [] e.op = "sample"   -> EvSample(e)
      [] e.op = "reach"    -> EvReach(e)
      [] e.op = "seeded"   -> EvSeeded(e)
      [] e.op = "active"   -> EvActive(e)
      [] e.op = "eval"     -> EvEval(e)
      [] e.op = "neigh"    -> EvNeigh(e)
      [] e.op = "rneigh"   -> EvRandNeigh(e)
      [] e.op = "grid"     -> EvGrid(e)
      [] e.op = "deact"    -> EvDeact(e)
      [] e.op = "impute"   -> EvImpute(e)
      [] e.op = "origin"   -> EvOrigin(e)
      [] e.op = "cfgeq"    -> EvCfgEq(e)
      [] e.op = "alive"    -> EvAlive(e)
      [] e.op = "hang"     -> Same({"hang." \o e.what})
      [] e.op = "crash"    -> Same({"crash." \o e.what})

Next ==
    /\ l <= Len(H[tid].ev)
    /\ LET e == H[tid].ev[l]
           r == IF Unjudged(e) THEN Same({}) ELSE Step(e)
       IN /\ IF r.bad = {} THEN TRUE
             ELSE PrintT("BAD " \o ToJson([tid |-> tid, l |-> l, clauses |-> r.bad]))
          /\ S' = r.S
          /\ C' = r.C
          /\ lost' = (lost \/ r.bad \cap {"add.spurious", "add.accepted",
                                           "nest.add.spurious", "nest.add.accepted"} # {})
    /\ l' = l + 1
    /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

\* The specification's own sanity, evaluated on the states real programs reach.
DefaultsValid == \A s \in DOMAIN S : Valid(S[s], DefaultOf(S[s]))
ConfigsValid == \A c \in DOMAIN C : C[c].s \in DOMAIN S
=============================================================================
