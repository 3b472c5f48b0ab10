------------------------------- MODULE CSCore -------------------------------
(***************************************************************************)
(* Semantic core of a conditional configuration space.                     *)
(*                                                                         *)
(* Hyperparameters are identified by the rank of their name (so that the   *)
(* order of names is the order of integers).  Values are integer codes:    *)
(* an order and equality preserving image of the concrete values used in a *)
(* history.  NA stands for "no value" (an inactive hyperparameter).        *)
(*                                                                         *)
(*  hyperparameter  [t, k, vals, w0, lo, hi, ni, en, n, def, fp, fpu, du]  *)
(*     t        its type: "cat", "ord", "const", "int" or "float"          *)
(*     k = "d"  finite: vals is the sequence of its values in their order, *)
(*              w0 those that have probability zero                        *)
(*     k = "r"  a range lo..hi of codes, without the codes ni (those that  *)
(*              are not integral); en says that every value has a code     *)
(*     n        its number of values, NA if there is no bound              *)
(*     def      its default                                                *)
(*     fp       fingerprint of everything a user has declared about it     *)
(*     fpu, du  fingerprint and default once its prior is removed          *)
(*  condition term  [op |-> "T"]                      unconditional        *)
(*                  [op \in {"EQ","NE","LT","GT"}, p, v]                   *)
(*                  [op |-> "IN", p, vs]                                   *)
(*                  [op \in {"AND","OR"}, cs]                              *)
(*  forbidden term  [op \in {"EQ","IN"}, p, v/vs]                          *)
(*                  [op |-> "AND", cs]                                     *)
(*                  [op \in {"RLT","RGT","REQ"}, l, r]   relations         *)
(*  space           [nm, d, h, cond, forb, dep, ord]                       *)
(*     nm its name and meta data, d defined ids, h their definitions, cond *)
(*     their conditions, forb a sequence of forbidden terms; dep/ord are   *)
(*     derived (see Derive).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NA == -1
NoCond == [op |-> "T"]

RangeOf(s) == {s[j] : j \in DOMAIN s}

----------------------------------------------------------------------------
(* Hyperparameters *)

Legal(h, v) ==
    /\ v # NA
    /\ IF h.k = "d" THEN \E j \in DOMAIN h.vals : h.vals[j] = v
                    ELSE v >= h.lo /\ v <= h.hi /\ \A j \in DOMAIN h.ni : h.ni[j] # v

\* The values of a hyperparameter all of whose values have a code.
Enumerable(h) == h.k = "d" \/ h.en
ValuesOf(h) == IF h.k = "d" THEN RangeOf(h.vals) ELSE (h.lo .. h.hi) \ RangeOf(h.ni)

Pos(h, v) == CHOOSE j \in DOMAIN h.vals : h.vals[j] = v

\* What "less than" means for a hyperparameter: position for finite ones.
Key(h, v) == IF h.k = "d" THEN Pos(h, v) ELSE v

----------------------------------------------------------------------------
(* Conditions.  An atom on a parent without a value is never satisfied. *)

RECURSIVE CondParents(_)
CondParents(c) ==
    CASE c.op = "T" -> {}
      [] c.op \in {"AND", "OR"} -> UNION {CondParents(c.cs[j]) : j \in DOMAIN c.cs}
      [] OTHER -> {c.p}

RECURSIVE Holds(_, _, _)
Holds(hs, c, x) ==
    CASE c.op = "T"   -> TRUE
      [] c.op = "AND" -> \A j \in DOMAIN c.cs : Holds(hs, c.cs[j], x)
      [] c.op = "OR"  -> \E j \in DOMAIN c.cs : Holds(hs, c.cs[j], x)
      [] OTHER ->
           /\ x[c.p] # NA
           /\ CASE c.op = "EQ" -> x[c.p] = c.v
                [] c.op = "NE" -> x[c.p] # c.v
                [] c.op = "IN" -> x[c.p] \in RangeOf(c.vs)
                [] c.op = "LT" -> Key(hs[c.p], x[c.p]) < Key(hs[c.p], c.v)
                [] c.op = "GT" -> Key(hs[c.p], x[c.p]) > Key(hs[c.p], c.v)

\* Two conditions are the same if they are equal up to the order of components.
RECURSIVE TermEq(_, _)
TermEq(a, b) ==
    IF a.op # b.op THEN FALSE
    ELSE CASE a.op = "T" -> TRUE
           [] a.op \in {"AND", "OR"} ->
                /\ Len(a.cs) = Len(b.cs)
                /\ \A i \in DOMAIN a.cs : \E j \in DOMAIN b.cs : TermEq(a.cs[i], b.cs[j])
                /\ \A j \in DOMAIN b.cs : \E i \in DOMAIN a.cs : TermEq(a.cs[i], b.cs[j])
           [] a.op = "IN" -> a.p = b.p /\ RangeOf(a.vs) = RangeOf(b.vs)
           [] a.op \in {"RLT", "RGT", "REQ"} -> a.l = b.l /\ a.r = b.r
           [] OTHER -> a.p = b.p /\ a.v = b.v

----------------------------------------------------------------------------
(* Forbidden clauses.  Anything on a missing value does not hold. *)

RECURSIVE ForbIds(_)
ForbIds(f) ==
    CASE f.op = "AND" -> UNION {ForbIds(f.cs[j]) : j \in DOMAIN f.cs}
      [] f.op \in {"RLT", "RGT", "REQ"} -> {f.l, f.r}
      [] OTHER -> {f.p}

RECURSIVE FHolds(_, _)
FHolds(f, x) ==
    CASE f.op = "AND" -> \A j \in DOMAIN f.cs : FHolds(f.cs[j], x)
      [] f.op = "EQ"  -> x[f.p] # NA /\ x[f.p] = f.v
      [] f.op = "IN"  -> x[f.p] # NA /\ x[f.p] \in RangeOf(f.vs)
      [] OTHER ->
           /\ x[f.l] # NA
           /\ x[f.r] # NA
           /\ CASE f.op = "RLT" -> x[f.l] < x[f.r]
                [] f.op = "RGT" -> x[f.l] > x[f.r]
                [] f.op = "REQ" -> x[f.l] = x[f.r]

----------------------------------------------------------------------------
(* Spaces *)

EmptySpace == [nm |-> NA, d |-> {}, h |-> <<>>, cond |-> <<>>, forb |-> <<>>,
               dep |-> <<>>, ord |-> <<>>]

Roots(sp) == {i \in sp.d : sp.cond[i].op = "T"}
ParentsOf(sp, i) == CondParents(sp.cond[i])
ChildrenOf(sp, i) == {j \in sp.d : i \in ParentsOf(sp, j)}

RECURSIVE Reach(_, _, _)
Reach(cond, todo, seen) ==
    LET new == (UNION {CondParents(cond[i]) : i \in todo}) \ seen
    IN  IF new = {} THEN seen ELSE Reach(cond, new, seen \cup new)
\* The hyperparameters that decide, directly or not, on the activity of i.
Ancestors(cond, i) == Reach(cond, {i}, {})

Cyclic(cond, d) == \E i \in d : i \in Ancestors(cond, i)

\* dep: length of the longest chain of conditions; ord: by (dep, name).
Derive(sp) ==
    LET D[i \in sp.d] ==
            IF sp.cond[i].op = "T" THEN 1
            ELSE 1 + Max({D[p] : p \in CondParents(sp.cond[i])})
        dep == [i \in sp.d |-> D[i]]
    IN  [sp EXCEPT !.dep = dep,
                   !.ord = SetToSortSeq(sp.d,
                        LAMBDA a, b : dep[a] < dep[b] \/ (dep[a] = dep[b] /\ a < b))]

\* An assignment is a function from ids to codes; NA for no value.
Blank(sp) == [i \in sp.d |-> NA]
SetIds(sp, x) == {i \in sp.d : x[i] # NA}

\* Hyperparameters whose condition holds for x taken literally.
RawActive(sp, x) == {i \in sp.d : Holds(sp.h, sp.cond[i], x)}

\* Drop the values of hyperparameters that are not active, parents first.
Eff(sp, x) ==
    FoldLeft(LAMBDA y, i : IF Holds(sp.h, sp.cond[i], y) THEN y
                           ELSE [y EXCEPT ![i] = NA],
             x, sp.ord)

\* The activity of every hyperparameter, decided in order: it is active iff
\* its condition holds for the values of its active parents.
ActiveSet(sp, x) ==
    FoldLeft(LAMBDA acc, i :
                IF Holds(sp.h, sp.cond[i], [j \in sp.d |-> IF j \in acc THEN x[j] ELSE NA])
                THEN acc \cup {i} ELSE acc,
             {}, sp.ord)

Forbidden(sp, x) == \E j \in DOMAIN sp.forb : FHolds(sp.forb[j], x)

Kinds(sp, x, act) ==
      (IF \E i \in sp.d : x[i] # NA /\ ~Legal(sp.h[i], x[i]) THEN {"ILLEGAL"} ELSE {})
 \cup (IF \E i \in act : x[i] = NA THEN {"NOTSET"} ELSE {})
 \cup (IF \E i \in sp.d \ act : x[i] # NA THEN {"INACTIVE"} ELSE {})

\* What is wrong with an assignment.  Empty iff it is a valid configuration.
\* Whether an inactive parent with a value counts for its children only
\* matters for which of several complaints is raised, see ErrKindsAgree.
\* Terms are only evaluated on legal values.
Illegals(sp, x) == {i \in sp.d : x[i] # NA /\ ~Legal(sp.h[i], x[i])}
ErrKinds(sp, x) ==
    IF \E i \in sp.d : x[i] # NA /\ ~Legal(sp.h[i], x[i])
    THEN {"ILLEGAL", "NOTSET", "INACTIVE", "FORBID"}
    ELSE Kinds(sp, x, RawActive(sp, x)) \cup Kinds(sp, x, ActiveSet(sp, x))
         \cup (IF Forbidden(sp, x) THEN {"FORBID"} ELSE {})

Valid(sp, x) ==
    /\ \A i \in sp.d : x[i] # NA => Legal(sp.h[i], x[i])
    /\ LET act == ActiveSet(sp, x) IN \A i \in sp.d : (i \in act) <=> (x[i] # NA)
    /\ ~Forbidden(sp, x)

\* With inactive values allowed: conditions are read literally.
ErrKindsLax(sp, x) ==
    IF \E i \in sp.d : x[i] # NA /\ ~Legal(sp.h[i], x[i]) THEN {"ILLEGAL"}
    ELSE (IF \E i \in RawActive(sp, x) : x[i] = NA THEN {"NOTSET"} ELSE {})
         \cup (IF Forbidden(sp, x) THEN {"FORBID"} ELSE {})

DefaultOf(sp) == Eff(sp, [i \in sp.d |-> sp.h[i].def])

\* Give hyperparameter i the value v: what is still active keeps its value,
\* what becomes active gets its default, what becomes inactive loses it.
Change(sp, x, i, v) ==
    FoldLeft(LAMBDA y, j :
                IF j = i THEN y
                ELSE IF Holds(sp.h, sp.cond[j], y)
                     THEN (IF y[j] = NA THEN [y EXCEPT ![j] = sp.h[j].def] ELSE y)
                     ELSE [y EXCEPT ![j] = NA],
             [x EXCEPT ![i] = v], sp.ord)

Finite(sp) == \A i \in sp.d : Enumerable(sp.h[i])

\* All assignments of a finite space, built along the order so that only
\* active hyperparameters branch: vs[i] are the candidate values of i.
RECURSIVE Expand(_, _, _, _)
Expand(sp, vs, k, part) ==
    IF k > Len(sp.ord) THEN part
    ELSE LET i == sp.ord[k]
         IN  Expand(sp, vs, k + 1,
                UNION { IF Holds(sp.h, sp.cond[i], y)
                        THEN {[y EXCEPT ![i] = v] : v \in vs[i]}
                        ELSE {y} : y \in part })
AllOver(sp, vs) == {x \in Expand(sp, vs, 1, {Blank(sp)}) : ~Forbidden(sp, x)}
AllValid(sp) == AllOver(sp, [i \in sp.d |-> ValuesOf(sp.h[i])])
=============================================================================
