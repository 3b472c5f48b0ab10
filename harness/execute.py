"""Runs a program against the real code and records its history."""
from __future__ import annotations

import copy
import io
import json
import os
import pickle
import signal
import tempfile

import numpy as np

import model as M
from model import CS, EMPTY_CFG, ILL, NA, N, V, build_cond, build_forb, kind, obs_cfg, obs_space, term

import pcs
import written

from ConfigSpace import Configuration, util


NP = {bool: np.bool_, int: np.int64, float: np.float64, str: np.str_}


def as_numpy(v):
    """The same value as a scalar of numpy."""
    return NP[type(v)](v) if type(v) in NP else v


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout


signal.signal(signal.SIGALRM, _alarm)


class Run:
    def __init__(self, program):
        self.p = program = M.decode(program)
        M.OLDER[0] = bool(program.get("older"))
        self.spaces = {}
        self.pool = {}      # slot -> name -> latest hp object
        self.specs = {}     # slot -> name -> spec of what is in the space
        self.cfgs = {}
        self.cfg_slot = {}
        self.ev = []

    # ------------------------------------------------------------------ helpers
    def get(self, slot):
        def f(name):
            sp = self.spaces[slot]
            if name in sp:
                return sp[name]
            return self.pool[slot][name]
        return f

    def vec(self, slot, vals):
        """A vector for the given values; ("vec", x) passes x literally."""
        sp = self.spaces[slot]
        arr = np.full(len(sp), np.nan)
        for k, v in vals.items():
            if isinstance(v, (list, tuple)) and len(v) == 2 and v[0] == "vec":
                arr[sp.index_of[k]] = v[1]
            else:
                arr[sp.index_of[k]] = sp[k].to_vector(v)
        return arr

    def pairs(self, vals):
        out = []
        for k, v in vals.items():
            if isinstance(v, (list, tuple)) and len(v) == 2 and v[0] == "vec":
                out.append([N(k), ILL])
            else:
                out.append([N(k), V(v)])
        return out

    def out_cfg(self, f):
        try:
            return "", obs_cfg(f())
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            return kind(e), EMPTY_CFG

    def rec(self, **e):
        self.ev.append(e)

    # --------------------------------------------------------------- operations
    def op_new(self, slot, o):
        self.spaces[slot] = CS.ConfigurationSpace(
            name=o.get("name"), seed=o.get("seed"), meta=o.get("meta"))
        self.pool[slot] = {}
        self.specs[slot] = {}
        self.rec(op="new", s=slot, nm=M.name_meta(o.get("name"), o.get("meta")),
                 obs=obs_space(self.spaces[slot]))

    def op_add(self, slot, o):
        sp = self.spaces[slot]
        local = {}
        hps, desc = [], []
        for h in o.get("ghosts", []):
            local[h["name"]] = M.build_hp(h)
        for h in o.get("hps", []):
            obj = M.build_hp(h)
            local.setdefault(h["name"], obj)
            hps.append(obj)
            d = M.spec_default(h)
            desc.append({"i": N(h["name"]),
                         "h": M.describe_hp(h, obj.default_value if d is M.UNKNOWN else d)})

        def get(name):
            if o.get("by") and name in self.spaces[o["by"]]:
                return self.spaces[o["by"]][name]
            return sp[name] if name in sp else local[name]

        conds = [build_cond(c["c"], c["t"], get) for c in o.get("conds", [])]
        forbs = [build_forb(f, get) for f in o.get("forbs", [])]
        form = o.get("form", "args")
        try:
            if form == "list":
                sp.add([*hps, *conds, *forbs])
            elif form == "mixed":
                sp.add([*forbs, *conds, *hps])
            elif form == "nested":
                sp.add([[h] for h in hps], (conds, forbs))
            elif form == "gen":
                sp.add((h for h in hps), (c for c in conds), (f for f in forbs))
            elif form == "old":
                # the older entry points, one kind at a time
                if [hps, conds, forbs].count([]) < 2:
                    sp.add(*hps, *conds, *forbs)
                elif len(hps) > 1:
                    sp.add_hyperparameters(h for h in hps)
                elif len(conds) > 1:
                    sp.add_conditions(conds)
                elif len(forbs) > 1:
                    sp.add_forbidden_clauses(forbs)
                elif hps:
                    sp.add_hyperparameter(hps[0])
                elif conds:
                    sp.add_condition(conds[0])
                else:
                    sp.add_forbidden_clause(forbs[0])
            else:
                sp.add(*hps, *conds, *forbs)
            err = ""
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        if err == "":
            for h, obj in zip(o.get("hps", []), hps):
                self.pool[slot][h["name"]] = obj
                self.specs[slot][h["name"]] = h
        self.rec(op="add", s=slot, err=err, hps=desc,
                 conds=[{"c": N(c["c"]), "t": term(c["t"])} for c in o.get("conds", [])],
                 forbs=[term(f) for f in o.get("forbs", [])], obs=obs_space(sp))

    def op_same(self, slot, o):
        """Derive another space that has to be the same."""
        sp = self.spaces[slot]
        how = o["how"]
        err, obs, eq = "", obs_space(CS.ConfigurationSpace()), False
        try:
            if how == "byhand":
                new = written.read_by_hand(sp, self.specs[slot], o["seed"])
            elif how == "coders":
                new = written.custom(sp, o["seed"])
            else:
                new = DERIVE[how](sp)
            obs = obs_space(new)
            eq = bool(new == sp) and bool(sp == new)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        into = o.get("into", "") if err == "" else ""
        self.rec(op="same", s=slot, tag=o.get("tag", how), err=err, obs=obs, eq=eq, into=into)
        if into:
            self.spaces[into], self.specs[into] = new, dict(self.specs[slot])
            self.pool[into] = {}

    def op_written(self, slot, o):
        """What the serialized form says, to a reader of our own."""
        err, obs = "", written.EMPTY
        try:
            d = written.write(self.spaces[slot], o["how"])
            obs = written.describe(d)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="written", s=slot, err=err, obs=obs)

    def op_fix(self, slot, o):
        """Values given as text, or already as they should be."""
        sp, specs = self.spaces[slot], self.specs[slot]
        given = {k: str(v) if how == "text" else v for k, (v, how) in o["vals"].items()}
        given.update(o.get("more", {}))
        err, out, rest, ty = "", [], True, True
        try:
            got = CS.util.fix_types(dict(given), sp)
            out = [[N(k), V(got[k])] for k in o["vals"]]
            rest = set(got) == set(given) and all(got[k] == v for k, v in o.get("more", {}).items())
            for k in o["vals"]:
                h = specs[k]
                if h["t"] in ("cat", "ord", "const"):
                    ty &= any(type(w) is type(M.plain(got[k])) and w == got[k] for w in M.values_of(h))
                else:
                    ty &= M.good_type(sp[k], got[k])
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        xs, txt = [], []
        for k, (v, how) in o["vals"].items():
            xs.append([N(k), V(str(v)), V(v)])
            if specs[k]["t"] in ("cat", "ord", "const"):
                txt.append([N(k), [[V(w), V(str(w))] for w in M.values_of(specs[k])]])
        self.rec(op="fix", s=slot, err=err, xs=xs, txt=txt, out=out, rest=rest, ty=ty)

    def op_pcs(self, slot, o):
        """Write in one of the pcs formats and read that back."""
        sp = self.spaces[slot]
        how = o["how"]
        werr, err, obs = "", "", obs_space(CS.ConfigurationSpace())
        try:
            if how == "text":
                text = pcs.text_of(sp, self.specs[slot], o["old"])
            else:
                text = (pcs.OLD if o["old"] else pcs.NEW).write(sp)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            werr = kind(e)
        if werr == "":
            try:
                lines = pcs.layout(text.split("\n"), o.get("layout"))
                obs = obs_space((pcs.OLD if o["old"] else pcs.NEW).read(lines))
            except Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                err = kind(e)
        hs, txt = [], []
        for n, h in self.specs[slot].items():
            im = pcs.image(h, sp[n].default_value)
            hs.append([N(n), M.describe_hp(im, im["default"])])
            if h["t"] in ("cat", "ord", "const"):
                txt.append([N(n), [[V(v), V(str(v))] for v in M.values_of(h)]])
        self.rec(op="pcs", s=slot, tag=o.get("tag", "pcs"), old=o["old"], own=how == "text",
                 weights=any(h.get("weights") is not None for h in self.specs[slot].values()),
                 werr=werr, err=err, obs=obs, hs=hs, txt=txt)

    def op_nest(self, slot, o):
        sp, src = self.spaces[slot], self.spaces[o["src"]]
        pre, dl = o["pre"], o.get("del", ":")
        par = o.get("par")
        new = {}
        for n, h in self.specs[o["src"]].items():
            new[n] = nest_name(pre, dl, n)
        kw = {} if dl == ":" and not o.get("explicit") else {"delimiter": dl}
        if par:
            kw["parent_hyperparameter"] = {"parent": sp[par["p"]], "value": par["v"]}
        try:
            sp.add_configuration_space(pre, src, **kw)
            err = ""
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        fps = []
        for n, h in self.specs[o["src"]].items():
            d = M.spec_default(h)
            d = src[n].default_value if d is M.UNKNOWN else d
            fps.append([N(n), [V(M.fp_spec(h, d, name=new[n])),
                               V(M.fp_spec(h, d, uniform=True, name=new[n]))]])
            if err == "":
                self.specs[slot][new[n]] = {**h, "name": new[n]}
        self.rec(op="nest", s=slot, src=o["src"], pre=pre, **{"del": dl},
                 par=[N(par["p"]), V(par["v"])] if par else [], err=err, fps=fps,
                 new=[N(n) for n in new.values()],
                 obs=obs_space(sp), srcobs=obs_space(src))

    def op_nopriors(self, slot, o):
        err, obs = "", obs_space(CS.ConfigurationSpace())
        try:
            new = self.spaces[slot].remove_hyperparameter_priors()
            obs = obs_space(new)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        into = o.get("into", "") if err == "" else ""
        self.rec(op="nopriors", s=slot, err=err, obs=obs, into=into)
        if into:
            self.spaces[into], self.pool[into] = new, {}
            self.specs[into] = {n: {**h, "t": "u" + h["t"][1:] if "upper" in h else h["t"], "weights": None}
                                for n, h in self.specs[slot].items()}

    def op_size(self, slot, o):
        n = self.spaces[slot].estimate_size()
        out = [NA] if n == float("inf") else M.digits(int(n)) if n >= 0 and int(n) == n else [-3]
        self.rec(op="size", s=slot, out=out)

    def op_eqspace(self, slot, o):
        a, b = self.spaces[slot], self.spaces[o["s2"]]
        eq, qe, ne = a == b, b == a, a != b
        self.rec(op="eqspace", s=slot, s2=o["s2"], eq=bool(eq) and bool(qe) and not ne)

    def op_mk(self, slot, o):
        sp = self.spaces[slot]
        vals = o["vals"]
        vec, lax = o.get("mode") == "vector", bool(o.get("lax"))
        unk = any(k not in sp for k in vals)
        cfg, err, out = None, "", EMPTY_CFG
        try:
            if vec:
                arr = self.vec(slot, vals)
                how = o.get("how", "cfg")
                if how == "util":
                    util.check_configuration(sp, arr, allow_inactive_with_values=lax)
                elif how == "space" and not lax:
                    sp.check_configuration_vector_representation(arr)
                if o.get("shape") == "list":
                    arr = arr.tolist()
                elif o.get("shape") == "column":
                    arr = arr.reshape(-1, 1)
                cfg = Configuration(sp, vector=arr, allow_inactive_with_values=lax)
                if how == "rigorous":
                    sp._check_configuration_rigorous(cfg, allow_inactive_with_values=lax)
                if M.OLDER[0] and not lax:
                    sp.check_configuration(cfg)
                if how != "rigorous":
                    cfg.check_valid_configuration()
            else:
                pv = {k: as_numpy(v) for k, v in vals.items()} if o.get("np") else dict(vals)
                cfg = Configuration(sp, values=pv, allow_inactive_with_values=lax)
            out = obs_cfg(cfg)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err, cfg = kind(e), None
        if cfg is not None and o.get("c"):
            self.cfgs[o["c"]] = cfg
            self.cfg_slot[o["c"]] = slot
        self.rec(op="mk", s=slot, c=o.get("c", ""), vec=vec, lax=lax, unk=unk,
                 x=[] if unk else self.pairs(vals), err=err, out=out)

    def op_set(self, c, o):
        if c not in self.cfgs:
            return
        cfg = self.cfgs[c]
        if o.get("read"):
            dict(cfg)       # have values cached before the change
        try:
            cfg[o["k"]] = as_numpy(o["v"]) if o.get("np") else o["v"]
            err = ""
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="set", c=c, i=N(o["k"]), v=V(o["v"]), err=err, out=obs_cfg(cfg))

    def op_sample(self, slot, o):
        sp = self.spaces[slot]
        n = o.get("n")
        if o.get("seed") is not None:
            sp.seed(o["seed"])
        err, outs, single = "", [], False
        try:
            r = sp.sample_configuration() if n is None else sp.sample_configuration(n)
            single = isinstance(r, Configuration)
            outs = [r] if single else list(r)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        c = o.get("c", "")
        if c and outs:
            self.cfgs[c], self.cfg_slot[c] = outs[0], slot
        self.rec(op="sample", s=slot, c=c if outs else "", n=1 if n is None else max(n, 0),
                 err=err, single=single, wantsingle=n is None or (n == 1 and len(sp) > 0),
                 out=[obs_cfg(x) for x in outs])

    def op_reach(self, slot, o):
        """Many draws, of which the distinct ones are looked at."""
        sp = self.spaces[slot]
        err, outs, got = "", {}, 0
        try:
            for n in o["ns"]:
                r = sp.sample_configuration(n)
                for c in (r if isinstance(r, list) else [r]):
                    got += 1
                    outs.setdefault(c.get_array().tobytes(), c)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="reach", s=slot, n=sum(o["ns"]), got=got, err=err,
                 out=[obs_cfg(c) for c in outs.values()])

    def op_seeded(self, slot, o):
        sp = self.spaces[slot]

        def draw(space, sizes):
            out = []
            for n in sizes:
                r = space.sample_configuration(n)
                out += [obs_cfg(x) for x in (r if isinstance(r, list) else [r])]
            return out

        sizes = o["sizes"]
        if o["how"] in ("both", "nopriors"):
            # two spaces, both of which are given the seed before either is asked
            if o["how"] == "both":
                x, y = sp, pickle.loads(pickle.dumps(sp)) if o["seed"] % 2 else copy.deepcopy(sp)
            else:
                x, y = sp.remove_hyperparameter_priors(), sp.remove_hyperparameter_priors()
            x.seed(o["seed"])
            y.seed(o["seed"])
            a, b = [], []
            for n in sizes:
                a += draw(x, [n])
                if o["how"] == "nopriors":
                    draw(sp, [1])
                b += draw(y, [n])
            self.rec(op="seeded", s=slot, a=a, b=b)
            return
        sp.seed(o["seed"])
        a = draw(sp, sizes)
        if o.get("how") == "copy":
            other = copy.deepcopy(sp)
            other.seed(o["seed"])
        elif o.get("how") == "fresh":
            other = CS.ConfigurationSpace(name=sp.name, seed=o["seed"], meta=sp.meta)
            other.add(list(sp.values()))
            other.add([copy.copy(c) for c in sp.conditions],
                      [copy.copy(f) for f in sp.forbidden_clauses])
        else:
            sp.seed(o["seed"])
            other = sp
        b = draw(other, sizes)
        self.rec(op="seeded", s=slot, a=a, b=b)

    def op_active(self, slot, o):
        sp = self.spaces[slot]
        arr = self.vec(slot, o["vals"])
        arg = Configuration(sp, vector=arr) if o.get("how") == "cfg" else arr
        out = sp.get_active_hyperparameters(arg)
        self.rec(op="active", s=slot, x=self.pairs(o["vals"]), out=[N(k) for k in sorted(out)])

    def op_eval(self, slot, o):
        sp = self.spaces[slot]
        arrs = [self.vec(slot, v) for v in o["batch"]]
        mat = np.array(arrs).T if arrs else np.empty((len(sp), 0))
        ca = [c.satisfied_by_vector_array(mat) for c in sp.conditions]
        fa = [f.is_forbidden_vector_array(mat) for f in sp.forbidden_clauses]
        for j, vals in enumerate(o["batch"]):
            conds, forbs = [], []
            for c, a in zip(sp.conditions, ca):
                conds.append({"c": N(c.child.name), "val": bool(c.satisfied_by_value(dict(vals))),
                              "vec": bool(c.satisfied_by_vector(arrs[j])), "arr": bool(a[j])})
            for f, a in zip(sp.forbidden_clauses, fa):
                forbs.append({"t": M.read_forb(f), "val": bool(f.is_forbidden_value(dict(vals))),
                              "vec": bool(f.is_forbidden_vector(arrs[j])), "arr": bool(a[j])})
            self.rec(op="eval", s=slot, x=self.pairs(vals), conds=conds, forbs=forbs)

    def _cfg(self, o):
        c = o["c"]
        return (self.cfgs[c], self.cfg_slot[c]) if c in self.cfgs else (None, None)

    def _x(self, cfg):
        return [[N(k), V(v)] for k, v in dict(cfg).items()]

    def op_neigh(self, _, o):
        cfg, slot = self._cfg(o)
        if cfg is None:
            return
        x = self._x(cfg)
        err, outs = "", []
        kw = {} if o.get("k") is None else {"num_neighbors": o["k"]}
        if o.get("stdev") is not None:
            kw["stdev"] = o["stdev"]
        try:
            for y in util.get_one_exchange_neighbourhood(cfg, seed=o["seed"], **kw):
                outs.append(obs_cfg(y))
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="neigh", s=slot, x=x, k=o.get("k") or 4, err=err, out=outs)

    def op_rneigh(self, _, o):
        cfg, slot = self._cfg(o)
        if cfg is None:
            return
        x = self._x(cfg)
        err, out = self.out_cfg(lambda: util.get_random_neighbor(cfg, seed=o["seed"]))
        self.rec(op="rneigh", s=slot, x=x, err=err, out=out)

    def op_grid(self, slot, o):
        sp = self.spaces[slot]
        steps = o.get("steps", {})
        vs = []
        for n, h in self.specs[slot].items():
            vs.append([N(n), [V(v) for v in grid_values(h, steps.get(n, 0))]])
        err, outs = "", []
        try:
            g = util.generate_grid(sp, steps if steps or o.get("pass_empty") else None)
            outs = [obs_cfg(x) for x in g]
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="grid", s=slot, vs=vs, err=err, out=outs)

    def op_deact(self, slot, o):
        sp = self.spaces[slot]
        vals = o["vals"]
        if o.get("how") == "vector":
            arr = self.vec(slot, vals)
            f = lambda: util.deactivate_inactive_hyperparameters(None, sp, arr)  # noqa: E731
        elif o.get("how") == "cfg":
            arr = self.vec(slot, vals)
            c = Configuration(sp, vector=arr)
            f = lambda: util.deactivate_inactive_hyperparameters(c, sp)  # noqa: E731
        else:
            f = lambda: util.deactivate_inactive_hyperparameters(dict(vals), sp)  # noqa: E731
        err, out = self.out_cfg(f)
        self.rec(op="deact", s=slot, x=self.pairs(vals), err=err, out=out)

    def op_impute(self, _, o):
        cfg, slot = self._cfg(o)
        if cfg is None:
            return
        x = self._x(cfg)
        kw = {"strategy": "default"} if o.get("explicit") else {}
        err, out = self.out_cfg(lambda: util.impute_inactive_values(cfg, **kw))
        self.rec(op="impute", s=slot, x=x, err=err, out=out)

    def op_origin(self, c, o):
        """A configuration that comes from elsewhere than a constructor or a draw."""
        how, src = o["how"], o.get("src", "")
        if how == "default":
            slot = o["s"]
        elif src in self.cfgs:
            slot = self.cfg_slot[src]
        else:
            return
        sp, base = self.spaces[slot], self.cfgs.get(src)
        cfg, err, out = None, "", EMPTY_CFG
        try:
            if how == "default":
                cfg = sp.get_default_configuration()
            elif how == "deepcopy":
                cfg = copy.deepcopy(base)
            elif how == "pickle":
                cfg = pickle.loads(pickle.dumps(base))
            elif how == "values":
                cfg = Configuration(sp, values=dict(base))
            elif how == "neigh":
                cfg = next(iter(util.get_one_exchange_neighbourhood(base, seed=o["seed"])), None)
            elif how == "rneigh":
                cfg = util.get_random_neighbor(base, seed=o["seed"])
            else:
                cfg = util.deactivate_inactive_hyperparameters(dict(base), sp)
            if cfg is not None:
                out = obs_cfg(cfg)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        if cfg is None:
            # whether there is a neighbour is judged elsewhere
            if how in ("neigh", "rneigh"):
                return
        else:
            self.cfgs[c], self.cfg_slot[c] = cfg, slot
        self.rec(op="origin", s=slot, c=c, src=src, how=how, err=err, out=out)

    def op_cfgeq(self, c, o):
        a, b = self.cfgs.get(c), self.cfgs.get(o["c2"])
        if a is None or b is None:
            return
        eq = bool(a == b) and bool(b == a) and not (a != b)
        self.rec(op="cfgeq", c=c, c2=o["c2"], eq=eq, hash=hash(a) == hash(b))

    def op_alive(self, _, o):
        self.rec(op="alive", ss=[[k, obs_space(v)] for k, v in self.spaces.items()],
                 cs=[[k, obs_cfg(v)] for k, v in self.cfgs.items()])

    def run(self):
        for step in self.p["steps"]:
            signal.setitimer(signal.ITIMER_REAL, self.p.get("limit", 20))
            try:
                getattr(self, "op_" + step[0])(step[1], step[2])
            except Timeout:
                self.rec(op="hang", what=step[0])
                break
            except Exception as e:  # noqa: BLE001
                # a call that must not fail, or an observation that did
                self.rec(op="crash", what=step[0] + "." + kind(e))
                break
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        return {"ev": self.ev}


def nest_name(pre, dl, n):
    # the same rule as NestName in the specification: only used to give every
    # name that can occur an id, the specification decides which one is right
    if n in ("", pre):
        return pre
    return n if n.startswith(pre + dl) else pre + dl + n


def grid_values(h, steps):
    t = h["t"]
    if t == "cat":
        return h["choices"]
    if t == "ord":
        return h["sequence"]
    if t == "const":
        return [h["value"]]
    if steps < 1 or t not in ("uint", "ufloat"):
        return []
    lo, hi = float(h["lower"]), float(h["upper"])
    if h.get("log"):
        lo, hi = np.log(lo), np.log(hi)
    pts = [lo + (hi - lo) * j / (steps - 1) for j in range(steps)] if steps > 1 else [lo]
    if h.get("log"):
        pts = [float(np.exp(p)) for p in pts]
    if t == "uint":
        pts = [min(max(int(np.round(p)), h["lower"]), h["upper"]) for p in pts]
    else:
        pts = [float(np.round(min(max(p, h["lower"]), h["upper"]), 13)) for p in pts]
    return pts


def _json(sp):
    buf = io.StringIO()
    sp.to_json(buf)
    buf.seek(0)
    return CS.ConfigurationSpace.from_json(buf)


def _yaml(sp):
    buf = io.StringIO()
    sp.to_yaml(buf)
    buf.seek(0)
    return CS.ConfigurationSpace.from_yaml(buf)


def _file(fmt):
    def f(sp):
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "space." + fmt)
            getattr(sp, "to_" + fmt)(p)
            return getattr(CS.ConfigurationSpace, "from_" + fmt)(p)
    return f


def _dict(sp):
    return CS.ConfigurationSpace.from_serialized_dict(sp.to_serialized_dict())


def _twice(sp):
    d = sp.to_serialized_dict()
    before = copy.deepcopy(d)
    CS.ConfigurationSpace.from_serialized_dict(d)
    if d != before:
        raise RuntimeError("reading changed the serialized form")
    return CS.ConfigurationSpace.from_serialized_dict(d)


DERIVE = {
    "dict": _dict, "dict2": _twice, "json": _json, "yaml": _yaml,
    "jsonfile": _file("json"), "yamlfile": _file("yaml"),
    "jsontext": lambda sp: CS.ConfigurationSpace.from_serialized_dict(
        json.loads(json.dumps(sp.to_serialized_dict()))),
    "again": lambda sp: _json(_yaml(sp)),
    "deepcopy": copy.deepcopy,
    "copy": copy.copy,
    "pickle": lambda sp: pickle.loads(pickle.dumps(sp)),
}


def execute(program):
    return Run(program).run()
