------------------------------- MODULE CSOps --------------------------------
(***************************************************************************)
(* The public operations on spaces and configurations: for each the error  *)
(* kinds it may raise and the state it leads to.  An operation that raises *)
(* leaves everything as it was.                                            *)
(***************************************************************************)
EXTENDS CSCore

\* --- adding to a space -------------------------------------------------
\* b.hps: seq of [i, h]; b.conds: seq of [c, t]; b.forbs: seq of terms.
\* Hyperparameters are added first, then conditions, then forbidden clauses,
\* and the default of the resulting space must be valid.

AddCond(d, acc, c) ==
    LET missing == (IF c.c \notin d THEN {"CHILD"} ELSE {})
                   \cup (IF ~(CondParents(c.t) \subseteq d)
                         THEN {"PARENT"}
                              \* there may be more to complain about
                              \cup (IF c.c \in d /\ acc.cond[c.c].op # "T" THEN {"AMBIG"} ELSE {})
                              \cup (IF LET ps == CondParents(c.t) \cap d
                                       IN c.c \in Reach(acc.cond, ps, ps) THEN {"CYCLE"} ELSE {})
                         ELSE {})
    IN IF missing # {} THEN [acc EXCEPT !.err = @ \cup missing]
       ELSE IF acc.cond[c.c].op # "T"
            THEN IF TermEq(acc.cond[c.c], c.t) THEN acc
                 ELSE [acc EXCEPT !.err = @ \cup {"AMBIG"}]
       ELSE LET cond2 == [acc.cond EXCEPT ![c.c] = c.t]
            IN IF c.c \in Ancestors(cond2, c.c)
               THEN [acc EXCEPT !.err = @ \cup {"CYCLE"}]
               ELSE [acc EXCEPT !.cond = cond2]

AddOutcome(sp, b) ==
    LET dup == \E j \in DOMAIN b.hps :
                  \/ b.hps[j].i \in sp.d
                  \/ \E k \in 1 .. (j - 1) : b.hps[k].i = b.hps[j].i
        d1 == sp.d \cup {b.hps[j].i : j \in DOMAIN b.hps}
        h1 == [i \in d1 |-> IF i \in sp.d THEN sp.h[i]
                            ELSE b.hps[CHOOSE j \in DOMAIN b.hps : b.hps[j].i = i].h]
        c1 == [i \in d1 |-> IF i \in sp.d THEN sp.cond[i] ELSE NoCond]
        r  == FoldLeft(LAMBDA acc, c : AddCond(d1, acc, c),
                       [cond |-> c1, err |-> {}], b.conds)
        e  == (IF dup THEN {"EXISTS"} ELSE {}) \cup r.err
              \cup (IF \E j \in DOMAIN b.forbs : ~(ForbIds(b.forbs[j]) \subseteq d1)
                    THEN {"NOTFOUND"} ELSE {})
        sp1 == Derive([sp EXCEPT !.d = d1, !.h = h1, !.cond = r.cond,
                                 !.forb = @ \o b.forbs])
    IN  IF e # {} THEN [err |-> e, sp |-> sp]
        ELSE IF Forbidden(sp1, DefaultOf(sp1)) THEN [err |-> {"FORBID"}, sp |-> sp]
        ELSE [err |-> {}, sp |-> sp1]

\* --- nesting one space in another --------------------------------------
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

NestName(pre, del, n) ==
    IF n = "" \/ n = pre THEN pre
    ELSE IF StartsWith(n, pre \o del) THEN n
    ELSE pre \o del \o n

RECURSIVE Rename(_, _)
Rename(t, f) ==
    CASE t.op = "T" -> t
      [] t.op \in {"AND", "OR"} -> [t EXCEPT !.cs = [j \in DOMAIN @ |-> Rename(@[j], f)]]
      [] t.op \in {"RLT", "RGT", "REQ"} -> [t EXCEPT !.l = f[@], !.r = f[@]]
      [] OTHER -> [t EXCEPT !.p = f[@]]

\* f maps the ids of the source to those of the nested names; fps gives the
\* fingerprints under the new names; par = <<>> or <<parent, value>>.
NestBatch(src, f, fps, par) ==
    [hps   |-> [j \in DOMAIN src.ord |->
                  [i |-> f[src.ord[j]],
                   h |-> [src.h[src.ord[j]] EXCEPT !.fp = fps[src.ord[j]][1],
                                                   !.fpu = fps[src.ord[j]][2]]]],
     conds |-> FoldLeft(LAMBDA acc, i :
                  IF src.cond[i].op # "T"
                  THEN Append(acc, [c |-> f[i], t |-> Rename(src.cond[i], f)])
                  ELSE IF par = <<>> THEN acc
                  ELSE Append(acc, [c |-> f[i],
                                    t |-> [op |-> "EQ", p |-> par[1], v |-> par[2]]]),
                  <<>>, src.ord),
     forbs |-> [j \in DOMAIN src.forb |-> Rename(src.forb[j], f)]]

\* --- the space without priors ------------------------------------------
NoPriors(sp) ==
    [sp EXCEPT !.nm = NA,
               !.h = [i \in sp.d |-> [sp.h[i] EXCEPT !.fp = sp.h[i].fpu,
                                                     !.def = sp.h[i].du,
                                                     !.w0 = <<>>]]]

\* --- the pcs formats ---------------------------------------------------
\* They know no priors, no names, no meta data and only texts as values of
\* lists; hs are the hyperparameters they can express, T[i] turns a value of
\* the list of i into its text.  The older one only knows "in" and "and".

RECURSIVE Atoms(_)
Atoms(t) == IF t.op \in {"AND", "OR"}
            THEN FoldLeft(LAMBDA acc, c : acc \o Atoms(c), <<>>, t.cs)
            ELSE <<t>>
IsAtom(t) == t.op \notin {"AND", "OR"}

\* which conditions can be written; by hand also an "or" of "and"s
PcsCondOk(t, old, own) ==
    IF old
    THEN /\ \A j \in DOMAIN Atoms(t) : Atoms(t)[j].op \in {"T", "EQ", "IN"}
         /\ t.op # "OR"
         /\ LET RECURSIVE NoOr(_)
                NoOr(c) == c.op # "OR" /\ (c.op = "AND" => \A j \in DOMAIN c.cs : NoOr(c.cs[j]))
            IN NoOr(t)
    ELSE IF IsAtom(t) THEN TRUE
    ELSE \A j \in DOMAIN t.cs :
            \/ IsAtom(t.cs[j])
            \/ /\ own /\ t.op = "OR" /\ t.cs[j].op = "AND"
               /\ \A k \in DOMAIN t.cs[j].cs : IsAtom(t.cs[j].cs[k])

PcsAtom(sp, T, t) ==
    LET V(v) == IF sp.h[t.p].k = "d" THEN T[t.p][v] ELSE v
    IN CASE t.op = "T" -> t
         [] t.op = "IN" -> IF Len(t.vs) = 1 THEN [op |-> "EQ", p |-> t.p, v |-> V(t.vs[1])]
                           ELSE [op |-> "IN", p |-> t.p, vs |-> [j \in DOMAIN t.vs |-> V(t.vs[j])]]
         [] OTHER -> [t EXCEPT !.v = V(@)]

PcsCond(sp, T, t, old) ==
    IF IsAtom(t) THEN PcsAtom(sp, T, t)
    ELSE IF old THEN [op |-> "AND", cs |-> [j \in DOMAIN Atoms(t) |-> PcsAtom(sp, T, Atoms(t)[j])]]
    ELSE [t EXCEPT !.cs = [j \in DOMAIN @ |->
            IF IsAtom(@[j]) THEN PcsAtom(sp, T, @[j])
            ELSE [@[j] EXCEPT !.cs = [k \in DOMAIN @ |-> PcsAtom(sp, T, @[k])]]]]

PcsForbOk(f, own) ==
    \A j \in DOMAIN Atoms(f) : Atoms(f)[j].op \in (IF own THEN {"EQ"} ELSE {"EQ", "IN"})

\* a clause becomes all conjunctions of equalities it stands for
PcsForbs(sp, T, f) ==
    LET V(p, v) == IF sp.h[p].k = "d" THEN T[p][v] ELSE v
        vals(a) == IF a.op = "EQ" THEN <<a.v>> ELSE a.vs
        eqs(a) == [j \in DOMAIN vals(a) |-> [op |-> "EQ", p |-> a.p, v |-> V(a.p, vals(a)[j])]]
        RECURSIVE Prod(_)
        Prod(as) == IF as = <<>> THEN << <<>> >>
                    ELSE LET rest == Prod(Tail(as))
                             e == eqs(Head(as))
                         IN FoldLeft(LAMBDA acc, x : acc \o [j \in DOMAIN rest |-> <<x>> \o rest[j]],
                                     <<>>, e)
        all == Prod(Atoms(f))
    IN [j \in DOMAIN all |-> [op |-> "AND", cs |-> all[j]]]

PcsOk(sp, old, own, weights) ==
    /\ own \/ ~weights
    /\ \A i \in sp.d : ~(old /\ sp.h[i].t = "ord") /\ PcsCondOk(sp.cond[i], old, own)
    /\ \A j \in DOMAIN sp.forb : PcsForbOk(sp.forb[j], own)

PcsImage(sp, hs, T, old) ==
    Derive([sp EXCEPT !.nm = NA,
                      !.h = hs,
                      !.cond = [i \in sp.d |-> PcsCond(sp, T, sp.cond[i], old)],
                      !.forb = FoldLeft(LAMBDA acc, f : acc \o PcsForbs(sp, T, f), <<>>, sp.forb)])

\* --- configurations ----------------------------------------------------
MkErrs(sp, x, lax) ==
    IF Illegals(sp, x) # {} THEN {"ILLEGAL"}
    ELSE IF lax THEN ErrKindsLax(sp, x) ELSE ErrKinds(sp, x)

\* config[i] := v.   Outcome [err, x]
SetOutcome(sp, x, i, v) ==
    IF i \notin sp.d THEN [err |-> {"KEY"}, x |-> x]
    ELSE IF ~Legal(sp.h[i], v) THEN [err |-> {"ILLEGAL"}, x |-> x]
    ELSE IF x[i] = NA THEN [err |-> {"INACTIVE"}, x |-> x]
    ELSE LET y == Change(sp, x, i, v)
         IN IF Forbidden(sp, y) THEN [err |-> {"FORBID"}, x |-> x]
            ELSE [err |-> {}, x |-> y]

\* dropping the values of inactive hyperparameters
DeactOutcome(sp, x) ==
    IF Illegals(sp, x) # {} THEN [err |-> {"ILLEGAL"}, x |-> x]
    ELSE LET y == Eff(sp, x)
             e == ErrKinds(sp, y)
         IN [err |-> e, x |-> IF e = {} THEN y ELSE x]

\* giving inactive hyperparameters their default
ImputeOutcome(sp, x) ==
    LET y == [i \in sp.d |-> IF x[i] = NA THEN sp.h[i].def ELSE x[i]]
    IN [err |-> IF Forbidden(sp, y) THEN {"FORBID"} ELSE {}, x |-> y]

\* --- neighbourhoods ----------------------------------------------------
\* Values of a hyperparameter one step away from v.
NeighbourValues(h, v) ==
    IF h.t = "ord" THEN {h.vals[j] : j \in {k \in DOMAIN h.vals :
                              k = Pos(h, v) - 1 \/ k = Pos(h, v) + 1}}
    ELSE ValuesOf(h) \ {v}

\* The hyperparameter in which a neighbour y of x was exchanged: the only
\* ones that changed from one value to another.
Exchanged(sp, x, y) == {i \in sp.d : x[i] # NA /\ y[i] # NA /\ x[i] # y[i]}

IsExchange(sp, x, y) ==
    /\ \A i \in sp.d : y[i] # NA => Legal(sp.h[i], y[i])
    /\ \E i \in Exchanged(sp, x, y) : y = Change(sp, x, i, y[i])

\* The exchanges of a single hyperparameter, if they can be enumerated.
Exchanges(sp, x, i) ==
    {y \in {Change(sp, x, i, v) : v \in NeighbourValues(sp.h[i], x[i])} :
        ~Forbidden(sp, y)}

\* A random neighbour differs in one value and changes no activity.
IsNeighbour(sp, x, y) ==
    /\ Valid(sp, y)
    /\ \A i \in sp.d : x[i] = NA <=> y[i] = NA
    /\ Cardinality({i \in sp.d : x[i] # y[i]}) = 1
\* Those that can be enumerated.
RandomNeighbours(sp, x) ==
    {y \in UNION {{[x EXCEPT ![i] = v] : v \in NeighbourValues(sp.h[i], x[i])}
                    : i \in {j \in sp.d : x[j] # NA /\ Enumerable(sp.h[j])}} : Valid(sp, y)}

\* A call may give up on those far away in a range, not on these.
NearNeighbours(sp, x) ==
    {y \in RandomNeighbours(sp, x) :
        \A i \in sp.d : (y[i] # x[i] /\ sp.h[i].k = "r") =>
            ~\E v \in ValuesOf(sp.h[i]) : (x[i] < v /\ v < y[i]) \/ (y[i] < v /\ v < x[i])}

\* --- size --------------------------------------------------------------
\* Sizes soon exceed the integers of TLC: they are written with digits of base
\* 1000, the least first.
RECURSIVE Carried(_, _)
Carried(cols, c) ==
    IF cols = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 1000>> \o Carried(<<>>, c \div 1000))
    ELSE <<(cols[1] + c) % 1000>> \o Carried(Tail(cols), (cols[1] + c) \div 1000)

RECURSIVE Trimmed(_)
Trimmed(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trimmed(SubSeq(a, 1, Len(a) - 1)) ELSE a

Product(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE Trimmed(Carried([k \in 1..(Len(a) + Len(b) - 1) |->
            FoldLeft(LAMBDA acc, i : acc + (IF k - i + 1 \in DOMAIN b THEN a[i] * b[k - i + 1] ELSE 0),
                     0, [i \in DOMAIN a |-> i])], 0))

SizeOfSpace(sp) ==
    IF sp.d = {} THEN <<>>
    ELSE IF \E i \in sp.d : sp.h[i].n = NA THEN <<NA>>
    ELSE FoldLeft(LAMBDA a, i : Product(a, sp.h[i].nd), <<1>>, sp.ord)

\* --- equality ----------------------------------------------------------
SameTerms(a, b) ==
    /\ \A i \in DOMAIN a : \E j \in DOMAIN b : TermEq(a[i], b[j])
    /\ \A j \in DOMAIN b : \E i \in DOMAIN a : TermEq(a[i], b[j])

SameSpace(a, b) ==
    /\ a.nm = b.nm
    /\ a.d = b.d
    /\ \A i \in a.d : a.h[i].fp = b.h[i].fp /\ TermEq(a.cond[i], b.cond[i])
    /\ SameTerms(a.forb, b.forb)
=============================================================================
