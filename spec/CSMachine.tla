----------------------------- MODULE CSMachine ------------------------------
(***************************************************************************)
(* The state machine of one program that builds a space item by item, and  *)
(* then makes a configuration and assigns to it.                           *)
(*                                                                         *)
(* The items that may be added come from catalogues (one per line of a     *)
(* file), each with                                                        *)
(*     hps     hyperparameters [i, h]                                      *)
(*     conds   conditions [c, t], also contradictory, circular or for      *)
(*             hyperparameters that are not there yet                      *)
(*     forbs   forbidden clauses                                           *)
(* TLC explores all spaces that can be built from a catalogue, in any      *)
(* order, and checks the laws below on each.  hist is how a state was      *)
(* reached; it is exported and replayed into the implementation, it is not *)
(* part of the state (see View).                                           *)
(***************************************************************************)
EXTENDS CSOps, Json, IOUtils

Cats == ndJsonDeserialize(IOEnv.CATALOG_FILE)
MaxHist == IF "MAX_HIST" \in DOMAIN IOEnv THEN atoi(IOEnv.MAX_HIST) ELSE 1000

VARIABLES cat, sp, cfg, hist

vars == <<cat, sp, cfg, hist>>

NoCfg == <<>>

Init == /\ cat \in DOMAIN Cats
        /\ sp = EmptySpace
        /\ cfg = NoCfg
        /\ hist = <<>>

K == Cats[cat]

Items == ({"hp"} \X DOMAIN K.hps) \cup ({"cond"} \X DOMAIN K.conds) \cup ({"forb"} \X DOMAIN K.forbs)

BatchOf(items) ==
    LET of(a, s) == SetToSortSeq({x[2] : x \in {y \in items : y[1] = a}}, LAMBDA p, q : p < q)
    IN [hps   |-> [j \in DOMAIN of("hp", K) |-> K.hps[of("hp", K)[j]]],
        conds |-> [j \in DOMAIN of("cond", K) |-> K.conds[of("cond", K)[j]]],
        forbs |-> [j \in DOMAIN of("forb", K) |-> K.forbs[of("forb", K)[j]]]]

\* A clause that is there already is not added again.
New(item) == item[1] = "forb" => K.forbs[item[2]] \notin RangeOf(sp.forb)

Step(a, arg) == hist' = Append(hist, [a |-> a, arg |-> arg])

AddItems(items) ==
    /\ cfg = NoCfg
    /\ \A x \in items : New(x)
    /\ sp' = AddOutcome(sp, BatchOf(items)).sp
    /\ Step("add", items)
    /\ UNCHANGED <<cat, cfg>>

\* A configuration is made: the default one, or any.
Begin ==
    /\ cfg = NoCfg
    /\ sp.d # {}
    /\ \E x \in AllValid(sp) :
          /\ cfg' = x
          /\ Step("make", {<<i, x[i]>> : i \in SetIds(sp, x)})
    /\ UNCHANGED <<cat, sp>>

Assign(i, v) ==
    /\ cfg # NoCfg
    /\ cfg' = SetOutcome(sp, cfg, i, v).x
    /\ Step("set", <<i, v>>)
    /\ UNCHANGED <<cat, sp>>

\* Building only.
Build == \E x \in Items : AddItems({x})
SpecBuild == Init /\ [][Build]_vars

\* Programs: batches of up to two items, then assignments.
Program ==
    /\ Len(hist) < MaxHist
    /\ \/ /\ Len(hist) < MaxHist \div 2
          /\ \/ \E x \in Items : AddItems({x})
             \/ \E x, y \in Items : y[2] = x[2] + 1 /\ AddItems({x, y})
       \/ Len(hist) >= MaxHist \div 3 /\ Begin
       \/ \E i \in sp.d : \E v \in ValuesOf(sp.h[i]) : Assign(i, v)
SpecProgram == Init /\ [][Program]_vars

View == <<cat, [sp EXCEPT !.forb = RangeOf(@)], cfg>>

\* Exports the way to a state, the items that do not fit there and the valid
\* configurations.  Always true.
Export == PrintT("RUN " \o ToJson([cat |-> cat, hist |-> hist,
    rej |-> {x \in Items : AddOutcome(sp, BatchOf({x})).err # {}},
    valid |-> {{<<i, x[i]>> : i \in SetIds(sp, x)} : x \in AllValid(sp)}]))
ExportEnd == Len(hist) = MaxHist => PrintT("RUN " \o ToJson([cat |-> cat, hist |-> hist]))

----------------------------------------------------------------------------
(* Laws.  They are stated on the spaces that are reached.                   *)

\* All assignments of legal values to any of the hyperparameters.
Assignments(s) ==
    FoldLeft(LAMBDA part, i :
               UNION {{(i :> v) @@ y : v \in ValuesOf(s.h[i]) \cup {NA}} : y \in part},
             {<<>>}, s.ord)
Full(s, x) == \A i \in s.d : x[i] # NA
ValidSet == AllValid(sp)

WellFormed ==
    /\ DOMAIN sp.h = sp.d /\ DOMAIN sp.cond = sp.d
    /\ \A i \in sp.d : CondParents(sp.cond[i]) \subseteq sp.d
    /\ ~Cyclic(sp.cond, sp.d)
    /\ RangeOf(sp.ord) = sp.d /\ Len(sp.ord) = Cardinality(sp.d)
    \* parents come before their children
    /\ \A a, b \in DOMAIN sp.ord : sp.ord[a] \in ParentsOf(sp, sp.ord[b]) => a < b
    /\ \A j \in DOMAIN sp.forb : ForbIds(sp.forb[j]) \subseteq sp.d

\* P01: activity is the only solution of "active iff the condition holds for
\* the values of the active ones".
Only(x, A) == [j \in sp.d |-> IF j \in A THEN x[j] ELSE NA]
Solves(x, A) == A = {i \in sp.d : Holds(sp.h, sp.cond[i], Only(x, A))}
ActivityUnique ==
    \A x \in Assignments(sp) :
       /\ Solves(x, ActiveSet(sp, x))
       /\ \A A \in SUBSET sp.d : Solves(x, A) => A = ActiveSet(sp, x)
       /\ SetIds(sp, Eff(sp, x)) = ActiveSet(sp, x) \cap SetIds(sp, x)

\* P02: no complaint about an assignment iff it is valid, iff it is one of
\* those that the expansion along the order gives.
ValidityAgrees ==
    \A x \in Assignments(sp) :
       /\ Valid(sp, x) <=> ErrKinds(sp, x) = {}
       /\ Valid(sp, x) <=> x \in ValidSet
       /\ ErrKinds(sp, x) = {} => ErrKindsLax(sp, x) = {}

\* P03, P04: what is drawn, an assignment of which the inactive values are
\* dropped, is valid unless forbidden; and everything valid can be drawn.
SamplingSound ==
    LET drawn == {Eff(sp, x) : x \in {y \in Assignments(sp) : Full(sp, y)}}
    IN ValidSet = {x \in drawn : ~Forbidden(sp, x)}

\* P05: an assignment leads to a valid configuration that has the value, or
\* nowhere; what stays active keeps its value, what becomes active has its
\* default; assigning the same again changes nothing.
AssignmentSound ==
    \A x \in ValidSet : \A i \in sp.d : \A v \in ValuesOf(sp.h[i]) :
       LET r == SetOutcome(sp, x, i, v) IN
       /\ Valid(sp, r.x)
       /\ r.err # {} => r.x = x
       /\ r.err = {} => /\ r.x[i] = v
                        /\ SetOutcome(sp, r.x, i, v) = r
                        /\ \A j \in sp.d \ {i} :
                             r.x[j] \in {x[j], NA} \/ (x[j] = NA /\ r.x[j] = sp.h[j].def)
       /\ x[i] = v => r = [err |-> {}, x |-> x]
       /\ r.err = {"FORBID"} => Forbidden(sp, Change(sp, x, i, v))

\* P06: the space is what the same items give in one batch, in any order.
Reverse2(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
WholeBatch(s, o) ==
    [hps   |-> [j \in DOMAIN o |-> [i |-> o[j], h |-> s.h[o[j]]]],
     conds |-> LET cs == SelectSeq(o, LAMBDA i : s.cond[i].op # "T")
               IN [j \in DOMAIN cs |-> [c |-> cs[j], t |-> s.cond[cs[j]]]],
     forbs |-> Reverse2(s.forb)]
OrderIrrelevant ==
    \A o \in {sp.ord, Reverse2(sp.ord)} :
       LET r == AddOutcome(EmptySpace, WholeBatch(sp, o))
       IN r.err = {} /\ SameSpace(r.sp, sp) /\ r.sp.ord = sp.ord

\* P07: an addition that fails changes nothing; one that does not keeps
\* everything that was there.
Kept(a, b) ==
    /\ a.d \subseteq b.d
    /\ \A i \in a.d : b.h[i] = a.h[i] /\ (a.cond[i].op # "T" => TermEq(b.cond[i], a.cond[i]))
    /\ \A j \in DOMAIN a.forb : a.forb[j] \in RangeOf(b.forb)
AdditionAtomic ==
    \A x \in Items :
       LET r == AddOutcome(sp, BatchOf({x})) IN
       IF r.err # {} THEN r.sp = sp ELSE Kept(sp, r.sp)

\* P08
DefaultSound ==
    LET x == DefaultOf(sp) IN
    /\ Valid(sp, x)
    /\ \A i \in sp.d : x[i] \in {NA, sp.h[i].def}

\* P10: exchanges lead to other valid configurations, each by one assignment.
ExchangesSound ==
    \A x \in ValidSet : \A i \in SetIds(sp, x) : \A y \in Exchanges(sp, x, i) :
       /\ Valid(sp, y) /\ y # x
       /\ i \in Exchanged(sp, x, y)
       /\ IsExchange(sp, x, y)
       /\ SetOutcome(sp, x, i, y[i]) = [err |-> {}, x |-> y]

\* P11: being a random neighbour is symmetric and within the exchanges.
NeighboursSound ==
    \A x \in ValidSet : \A y \in RandomNeighbours(sp, x) :
       /\ IsNeighbour(sp, x, y)
       /\ x \in RandomNeighbours(sp, y)
       /\ \E i \in SetIds(sp, x) : y \in Exchanges(sp, x, i)

\* P12: a grid over all values is the whole space, one over some is the part
\* of it that has only those.
GridSound ==
    /\ AllOver(sp, [i \in sp.d |-> ValuesOf(sp.h[i])]) = ValidSet
    /\ LET some == [i \in sp.d |-> {Min(ValuesOf(sp.h[i]))}]
       IN AllOver(sp, some) = {x \in ValidSet : \A i \in sp.d : x[i] \in some[i] \cup {NA}}

\* P13: dropping inactive values is idempotent, keeps valid configurations
\* and makes every full assignment valid unless it is forbidden then.
DeactivationSound ==
    \A x \in Assignments(sp) :
       LET r == DeactOutcome(sp, x) IN
       /\ Eff(sp, Eff(sp, x)) = Eff(sp, x)
       /\ r.err = {} => Valid(sp, r.x)
       /\ Valid(sp, x) => r.x = x /\ r.err = {}
       /\ Full(sp, x) => r.err \subseteq {"FORBID"}

\* P14: imputing loses nothing.
ImputationSound ==
    \A x \in ValidSet :
       LET r == ImputeOutcome(sp, x) IN
       /\ Full(sp, r.x)
       /\ Eff(sp, r.x) = x
       /\ \A i \in sp.d : r.x[i] = x[i] \/ (x[i] = NA /\ r.x[i] = sp.h[i].def)

\* P15: a nested space is the same under other names; under a parent it is
\* there for one value of the parent and absent for the others.
Shift == 100
Host == [i |-> 99, h |-> [t |-> "cat", k |-> "d", vals |-> <<0, 1, 2>>, w0 |-> <<>>, lo |-> 0, hi |-> 0,
                          ni |-> <<>>, en |-> FALSE, n |-> 3, nd |-> <<3>>, def |-> 1, fp |-> 0, fpu |-> 0, du |-> 1]]
NestingSound ==
    LET f == [i \in sp.d |-> i + Shift]
        fps == [i \in sp.d |-> <<sp.h[i].fp, sp.h[i].fpu>>]
        host == AddOutcome(EmptySpace, [hps |-> <<Host>>, conds |-> <<>>, forbs |-> <<>>]).sp
        plain == AddOutcome(EmptySpace, NestBatch(sp, f, fps, <<>>))
        under == AddOutcome(host, NestBatch(sp, f, fps, <<99, 1>>))
        moved(x) == [j \in {f[i] : i \in sp.d} |-> x[j - Shift]]
        rest(x) == [j \in {f[i] : i \in sp.d} |-> x[j]]
    IN /\ plain.err = {} /\ under.err = {}
       /\ AllValid(plain.sp) = {moved(x) : x \in ValidSet}
       /\ plain.sp.ord = [j \in DOMAIN sp.ord |-> f[sp.ord[j]]]
       /\ {rest(x) : x \in {y \in AllValid(under.sp) : y[99] = 1}} = {moved(x) : x \in ValidSet}
       /\ \A x \in AllValid(under.sp) : x[99] # 1 => \A i \in sp.d : x[f[i]] = NA
       /\ Cardinality(AllValid(under.sp)) = Cardinality(ValidSet) + 2

\* P16: removing priors keeps the configurations.
NoPriorsSound ==
    /\ AllValid(NoPriors(sp)) = ValidSet
    /\ SameSpace(NoPriors(NoPriors(sp)), NoPriors(sp))
    /\ NoPriors(sp).ord = sp.ord

\* P18: the estimate is an upper bound, reached without conditions and
\* forbidden clauses.
RECURSIVE Number(_)
Number(a) == IF a = <<>> THEN 0 ELSE a[1] + 1000 * Number(Tail(a))
SizeSound ==
    /\ sp.d # {} => Cardinality(ValidSet) <= Number(SizeOfSpace(sp))
    /\ (sp.d # {} /\ sp.forb = <<>> /\ Roots(sp) = sp.d) => Cardinality(ValidSet) = Number(SizeOfSpace(sp))

\* P17: terms do not depend on hyperparameters they do not mention.
TermsLocal ==
    \A x, y \in {z \in Assignments(sp) : Cardinality(SetIds(sp, z)) >= Cardinality(sp.d) - 1} :
       /\ \A i \in sp.d : (\A p \in ParentsOf(sp, i) : x[p] = y[p])
                             => (Holds(sp.h, sp.cond[i], x) <=> Holds(sp.h, sp.cond[i], y))
       /\ \A j \in DOMAIN sp.forb : (\A p \in ForbIds(sp.forb[j]) : x[p] = y[p])
                             => (FHolds(sp.forb[j], x) <=> FHolds(sp.forb[j], y))

\* P06, P09, P21: equality of spaces is about content: it is reflexive and
\* notices any item that is missing.
Less(j) == Derive([sp EXCEPT !.forb = [k \in 1 .. (Len(@) - 1) |-> IF k < j THEN @[k] ELSE @[k + 1]]])
EqualityExact ==
    /\ SameSpace(sp, sp)
    /\ \A i \in sp.d : sp.cond[i].op # "T" =>
          ~SameSpace(sp, Derive([sp EXCEPT !.cond[i] = NoCond]))
    /\ \A j \in DOMAIN sp.forb :
          (\A k \in DOMAIN sp.forb \ {j} : ~TermEq(sp.forb[j], sp.forb[k])) => ~SameSpace(sp, Less(j))

\* A configuration that was reached by assignments is valid.
ConfigValid == cfg = NoCfg \/ Valid(sp, cfg)
=============================================================================
