#!/usr/bin/env python3
"""Deterministic simulator for the Python implementation (/repo/src).

One seed is one execution: the plan (a list of steps, each with a seed of its
own) decides every operation; the model's own generator is seeded by the plan;
hash seeds of all processes are fixed; restarted processes get a different,
fixed hash seed and differently seeded global generators.

  explore PROP SEED TIER RUNS JOBS MAXSEC OUTDIR KNOWN
  replay FILE | minimise IN OUT SEC | info PROP TIER
"""
import os, sys
if __name__ == '__main__' and 'PYTHONHASHSEED' not in os.environ:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
import copy, hashlib, importlib.util, itertools, json, math, random, subprocess, tempfile, time, traceback
from math import lgamma

REPO = os.environ.get('REPO', '/repo')
spec = importlib.util.spec_from_file_location(
    'hirm', REPO + '/src/__init__.py', submodule_search_locations=[REPO + '/src'])
pkg = importlib.util.module_from_spec(spec)
sys.modules['hirm'] = pkg
spec.loader.exec_module(pkg)
from hirm import hirm as H          # noqa: E402
from hirm import util_io as IO      # noqa: E402

SCRATCH = os.environ.get('SIM_SCRATCH') or tempfile.gettempdir()


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Rng(random.Random):
    """The model's generator: counts uniform draws, and can pin one of them."""
    def __init__(self, x=None):
        self.calls = 0
        self.pin = None
        self.u = None
        super().__init__(x)

    def random(self):
        i = self.calls
        self.calls += 1
        r = super().random()
        return self.u if i == self.pin else r

    def getrandbits(self, k):
        return super().getrandbits(k)

    def clone(self):
        r = Rng()
        r.setstate(self.getstate())
        return r


# ---------------------------------------------------------------- operations
def irms_of(m):
    return [m.irms[t] for t in sorted(m.irms)] if isinstance(m, H.HIRM) else [m]


def irm_of(m, r):
    return m.relation_to_irm(r) if isinstance(m, H.HIRM) else m


def pick_item(m, g):
    """Some (irm, domain, item), or None."""
    xs = [(i, d, x) for i, irm in enumerate(irms_of(m)) for d in sorted(irm.domains)
          for x in sorted(irm.domains[d].items, key=repr)]
    if not xs:
        return None
    i, d, x = g.choice(xs)
    return irms_of(m)[i], d, x


def gen_item(cfg, g):
    k = g.randrange(cfg['items'])
    if cfg['style'] == 'int' or (cfg['style'] == 'mix' and k % 2):
        return k
    return 'e%d' % k


def new_relation(m, cfg, g):
    n = 0
    while 'R%d' % n in m.schema:
        n += 1
    if n >= cfg['rels']:
        return None
    arity = g.choice([1, 2, 2, 2, 3])
    return 'R%d' % n, tuple('D%d' % g.randrange(cfg['doms']) for _ in range(arity))


def new_cell(m, cfg, g):
    """(relation, items, value) not observed yet, or None."""
    if not m.schema:
        return None
    r = g.choice(sorted(m.schema))
    data = irm_of(m, r).relations[r].data
    for _ in range(20):
        items = tuple(gen_item(cfg, g) for _ in m.schema[r])
        if g.random() < 0.15 and len(items) > 1:
            items = (items[0],) * len(items)
        if items not in data:
            h = (hash_int(r, [str(i)[-1] for i in items]) >> 3) & 1
            v = h if g.random() < cfg['clean'] else 1 - h
            if g.random() < 0.05:
                v = float(v)
            return r, items, v
    return None


def hash_int(*a):
    return int(hashlib.sha1(repr(a).encode()).hexdigest()[:12], 16)


def apply(m, cfg, step):
    """Performs one operation; everything is decided by the step's seed and the
    model's content, so the same step in an equal model is the same operation."""
    seed, op, args = step
    g = random.Random(seed)
    hirm = isinstance(m, H.HIRM)
    done = []
    if op == 'addrel':
        x = new_relation(m, cfg, g)
        if x:
            m.add_relation(*x)
            done.append(('addrel',) + x)
    elif op == 'obs':
        for _ in range(int(args[0])):
            x = new_cell(m, cfg, g)
            if x:
                m.incorporate(*x)
                done.append(('obs',) + x)
    elif op == 'rmrel':
        if len(m.schema) > 1:
            r = g.choice(sorted(m.schema))
            m.remove_relation(r)
            done.append(('rmrel', r))
    elif op == 'titem':
        x = pick_item(m, g)
        if x:
            x[0].transition_cluster_assignment_item(x[1], x[2])
            done.append(('titem', x[1], x[2]))
    elif op == 'tdom':
        irms = irms_of(m)
        if irms:
            irm = g.choice(irms)
            if irm.domains:
                d = g.choice(sorted(irm.domains))
                irm.transition_cluster_assignments([d])
                done.append(('tdom', d))
    elif op == 'tall':
        for irm in irms_of(m):
            irm.transition_cluster_assignments()
            done.append(('tall',))
    elif op == 'talpha':
        for irm in irms_of(m):
            if g.random() < 0.5 or not irm.domains:
                irm.transition_crp_alphas()
            else:
                irm.transition_crp_alphas([g.choice(sorted(irm.domains))])
            done.append(('talpha',))
    elif op == 'trel' and hirm:
        if m.schema:
            r = g.choice(sorted(m.schema))
            m.transition_cluster_assignment_relation(r)
            done.append(('trel', r))
    elif op == 'trelall' and hirm:
        m.transition_cluster_assignments()
        done.append(('trelall',))
    elif op == 'thalpha' and hirm:
        m.transition_crp_alpha()
        done.append(('thalpha',))
    elif op == 'setrel' and hirm:
        if m.schema:
            r = g.choice(sorted(m.schema))
            ts = [t for t in sorted(m.crp.tables) if t != m.crp.assignments[r]]
            if len(m.crp.tables[m.crp.assignments[r]]) > 1:
                ts.append(max(m.crp.tables) + 1)
            if ts:
                t = g.choice(ts)
                m.set_cluster_assignment_gibbs(r, t)
                done.append(('setrel', r, t))
    elif op == 'foreign':
        # Other code in the same process uses the shared generator.
        if g.random() < 0.5:
            random.seed(hash_int(seed, os.environ.get('PYTHONHASHSEED')))
        for _ in range(g.randrange(4)):
            random.random()
        done.append(('foreign',))
    return done


def canon(m):
    """The model's observable state (labels included), order-free."""
    def crp(c):
        return [repr(c.alpha), c.N, sorted((repr(k), t) for k, t in c.assignments.items()),
                sorted((t, sorted(map(repr, s))) for t, s in c.tables.items())]

    def one(irm):
        return [sorted((r, list(ds)) for r, ds in irm.schema.items()),
                sorted((d, crp(x.crp), sorted(map(repr, x.items))) for d, x in irm.domains.items()),
                sorted((r, [d.name for d in x.domains],
                        sorted((repr(k), float(v)) for k, v in x.data.items()),
                        sorted((repr(k), c.N, float(c.s), c.alpha, c.beta) for k, c in x.clusters.items()),
                        sorted((d, sorted((repr(i), sorted(map(repr, s))) for i, s in v.items()))
                               for d, v in x.data_r.items()))
                       for r, x in irm.relations.items()),
                sorted((d, sorted(rs)) for d, rs in irm.domain_to_relations.items())]
    if isinstance(m, H.HIRM):
        return ['hirm', sorted((r, list(ds)) for r, ds in m.schema.items()), crp(m.crp),
                sorted((t, one(i)) for t, i in m.irms.items())]
    return ['irm', one(m)]


def score(m):
    if isinstance(m, H.IRM) or m.schema:
        return m.logp_score() if all(d.crp.N for i in irms_of(m) for d in i.domains.values()) else 0.0
    return 0.0


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def fresh(cfg, seed):
    g = Rng(seed)
    return (H.HIRM({}, prng=g) if cfg['kind'] == 'hirm' else H.IRM({}, prng=g)), g


def cfg_of(step):
    k, doms, items, rels, style, clean = step[2]
    return dict(kind=k, doms=int(doms), items=int(items), rels=int(rels), style=style, clean=float(clean))


# ----------------------------------------------------- independent reference
def lbeta(a, b):
    return lgamma(a) + lgamma(b) - lgamma(a + b)


def bern_score(vals):
    n, s = len(vals), sum(vals)
    return lbeta(s + 1, n - s + 1) - lbeta(1, 1)


def crp_score(counts, alpha):
    n = sum(counts)
    return len(counts) * math.log(alpha) + sum(lgamma(c) for c in counts) + lgamma(alpha) - lgamma(n + alpha)


def rel_score(data, doms, assign):
    by = {}
    for items, v in data.items():
        by.setdefault(tuple(assign[d][i] for d, i in zip(doms, items)), []).append(v)
    return sum(bern_score(vs) for vs in by.values())


def counts_of(assign):
    c = {}
    for t in assign.values():
        c[t] = c.get(t, 0) + 1
    return c


class Mirror:
    """What the caller did: the schema and the data, nothing of the inference."""
    def __init__(self):
        self.schema, self.data = {}, {}

    def note(self, done):
        for d in done:
            if d[0] == 'addrel':
                self.schema[d[1]] = tuple(d[2])
                self.data[d[1]] = {}
            elif d[0] == 'rmrel':
                del self.schema[d[1]], self.data[d[1]]
            elif d[0] == 'obs':
                self.data[d[1]][d[2]] = d[3]

    def check(self, m):
        def need(c, cls, msg):
            if not c:
                raise Violation(cls, msg)
        need({r: tuple(d) for r, d in m.schema.items()} == self.schema, 'schema', 'schema is %r, expected %r' % (m.schema, self.schema))
        total = 0.0
        if isinstance(m, H.HIRM):
            self.crp(m.crp, 'relations')
            need(set(m.crp.assignments) == set(self.schema), 'relation-partition', 'relations seated: %r' % m.crp.assignments)
            need(set(m.irms) == set(m.crp.tables), 'relation-partition', 'tables %r but sub-models %r' % (sorted(m.crp.tables), sorted(m.irms)))
            for t, irm in m.irms.items():
                need(set(irm.relations) == m.crp.tables[t], 'relation-partition',
                     'sub-model %r holds %r, table holds %r' % (t, sorted(irm.relations), sorted(m.crp.tables[t])))
                need(m.crp.tables[t], 'empty-cluster', 'table %r is empty' % t)
            if m.crp.N:
                total += crp_score([len(s) for s in m.crp.tables.values()], m.crp.alpha)
        else:
            need(set(m.relations) == set(self.schema), 'relation-partition', 'relations: %r' % sorted(m.relations))
        full = True
        for irm in irms_of(m):
            doms = {}
            for r, rel in irm.relations.items():
                need(tuple(d.name for d in rel.domains) == self.schema[r], 'schema', '%s is over %r' % (r, [d.name for d in rel.domains]))
                need(tuple(irm.schema.get(r, ())) == self.schema[r], 'schema', 'sub-model schema of %s' % r)
                for d in rel.domains:
                    need(irm.domains.get(d.name) is d, 'domain-object', '%s uses another object for domain %s' % (r, d.name))
                    doms.setdefault(d.name, set()).add(r)
            need(set(irm.schema) == set(irm.relations), 'schema', 'sub-model schema lists %r' % sorted(irm.schema))
            need(set(irm.domains) == set(doms), 'domains', 'domains %r, used %r' % (sorted(irm.domains), sorted(doms)))
            need({d: set(s) for d, s in irm.domain_to_relations.items()} == doms, 'domain-relations',
                 'domain_to_relations %r, expected %r' % (irm.domain_to_relations, doms))
            assign = {}
            for d, dom in irm.domains.items():
                self.crp(dom.crp, d)
                need(set(dom.items) == set(dom.crp.assignments), 'items', 'items of %s: %r, seated: %r' % (d, dom.items, dom.crp.assignments))
                assign[d] = dom.crp.assignments
                if dom.crp.N:
                    total += crp_score([len(s) for s in dom.crp.tables.values()], dom.crp.alpha)
                else:
                    full = False
            for r, rel in irm.relations.items():
                want = self.data[r]
                need(rel.data == want, 'data', 'data of %s is %r, expected %r' % (r, rel.data, want))
                dr = {d.name: {} for d in rel.domains}
                by = {}
                for items, v in want.items():
                    for d, i in zip(rel.domains, items):
                        need(i in assign[d.name], 'items', '%r of %s has data but no seat' % (i, d.name))
                        dr[d.name].setdefault(i, set()).add(items)
                    k = tuple(assign[d.name][i] for d, i in zip(rel.domains, items))
                    n, s = by.get(k, (0, 0))
                    by[k] = (n + 1, s + v)
                need({d: {i: set(s) for i, s in x.items() if s} for d, x in rel.data_r.items()} == dr,
                     'reverse-index', 'reverse index of %s is %r, expected %r' % (r, rel.data_r, dr))
                got = {k: (c.N, c.s) for k, c in rel.clusters.items()}
                need(got == by, 'clusters', 'cluster counts of %s are %r, expected %r' % (r, got, by))
                total += rel_score(want, self.schema[r], assign)
        if full and (isinstance(m, H.IRM) or m.schema):
            s = m.logp_score()
            need(abs(s - total) <= 1e-7 * max(1, abs(total)), 'score', 'logp_score() is %.12g, recomputed %.12g' % (s, total))

    def crp(self, c, what):
        ok = (c.N == len(c.assignments) == sum(len(s) for s in c.tables.values()) and
              all(s and all(c.assignments.get(i) == t for i in s) for t, s in c.tables.items()) and c.alpha > 0)
        if not ok:
            raise Violation('partition', 'partition of %s is inconsistent: %r' % (what, c))


# ------------------------------------------------------------- exact draws
def clone(m, g):
    g2 = g.clone()
    return copy.deepcopy(m, {id(g): g2, id(random): random}), g2


def law(make, count):
    """The distribution of an outcome as a function of the last uniform draw
    that make(u) consumes.  make(None) runs with the generator's own draws and
    returns (outcome, draws); make((i, u)) pins draw i to u.  Returns
    {outcome: probability} and {outcome: payload}, or None if the outcome is
    not decided by one uniform."""
    _, n, _ = make(None)
    if n == 0:
        return None
    seen = {}
    evals = [0]

    def at(u):
        o, k, pay = make((n - 1, u))
        evals[0] += 1
        if k != n:
            raise LookupError
        seen.setdefault(o, pay)
        return o
    try:
        N = 12
        us = [i / N for i in range(N)] + [1 - 2.0 ** -53]
        os_ = [at(u) for u in us]
        runs = [k for k, _ in itertools.groupby(os_)]
        if len(runs) != len(set(runs)):
            # Not one interval per outcome: a fine grid instead.
            M = 1500
            mass = {}
            for i in range(M):
                o = at((i + 0.5) / M)
                mass[o] = mass.get(o, 0) + 1.0 / M
            return mass, seen, 0.02
        mass = {}
        eps = 1e-5

        def span(a, oa, b, ob):
            if oa == ob:
                mass[oa] = mass.get(oa, 0) + b - a
                return
            if b - a < eps:
                mass[oa] = mass.get(oa, 0) + (b - a) / 2
                mass[ob] = mass.get(ob, 0) + (b - a) / 2
                return
            c = (a + b) / 2
            oc = at(c)
            span(a, oa, c, oc)
            span(c, oc, b, ob)
        for i in range(N):
            span(us[i], os_[i], us[i + 1], os_[i + 1])
        count['draw evaluations'] = count.get('draw evaluations', 0) + evals[0]
        return mass, seen, 2e-4
    except LookupError:
        return None


def softmax(lw):
    mx = max(lw.values())
    e = {k: math.exp(v - mx) for k, v in lw.items()}
    z = sum(e.values())
    return {k: v / z for k, v in e.items()}


def compare(got, want, tol, cls, what):
    for k in set(got) | set(want):
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        if abs(a - b) > tol:
            raise Violation(cls, '%s: outcome %r is drawn with probability %.6f, the model says %.6f (drawn %s; model %s)' %
                            (what, k, a, b, {x: round(y, 5) for x, y in sorted(got.items(), key=repr)},
                             {x: round(y, 5) for x, y in sorted(want.items(), key=repr) if y > 1e-6}))


def next_table(counts, alpha):
    w = {t: math.log(c) for t, c in counts.items()}
    w[max(counts) + 1 if counts else 0] = math.log(alpha)
    return softmax(w)


def check_draw(m, g, cfg, step, count):
    """Compares the law of one operation with the model's conditional, on
    copies; the model itself is left as it was."""
    gr = random.Random(step[0])
    what = step[2][0]
    hirm = isinstance(m, H.HIRM)
    before = canon(m)

    def run(f):
        def make(pin):
            m2, g2 = clone(m, g)
            if pin:
                g2.pin, g2.u = pin
            o, pay = f(m2)
            return o, g2.calls, pay
        return law(make, count)

    res = None
    if what == 'item':
        x = pick_item(m, gr)
        if not x:
            return
        irm, d, item = x
        idx = [i for i, y in enumerate(irms_of(m)) if y is irm][0]
        old = dict(irm.domains[d].crp.assignments)
        rest = {k: t for k, t in old.items() if k != item}
        cnt = counts_of(rest)
        assign = {e: dict(y.crp.assignments) for e, y in irm.domains.items()}
        if irm.domains[d].crp.N == 1:
            cls = 'item-move'
        alpha = irm.domains[d].crp.alpha
        # The label of a new table: the item's own if it sits alone.
        new = old[item] if old[item] not in cnt else max(cnt) + 1
        lw = {}
        for t in list(cnt) + [new]:
            lp = math.log(cnt.get(t, alpha) if t in cnt else alpha)
            assign[d] = dict(rest)
            assign[d][item] = t
            for r, rel in irm.relations.items():
                lp += rel_score(rel.data, [y.name for y in rel.domains], assign)
            lw[t] = lp
        want = softmax(lw)

        def f(m2):
            irm2 = irms_of(m2)[idx]
            irm2.transition_cluster_assignment_item(d, item)
            a2 = irm2.domains[d].crp.assignments
            t = a2[item]
            if {k: v for k, v in a2.items() if k != item} != rest:
                raise Violation('item-move-side-effect', 'moving %r of %s also moved another item' % (item, d))
            return (t if t in cnt else 'new'), None
        res = run(f)
        want = {(k if k in cnt else 'new'): v for k, v in want.items()}
        label, cls = 'item %r of %s' % (item, d), 'item-move'
    elif what == 'relation' and hirm and m.schema:
        r = gr.choice(sorted(m.schema))
        old = dict(m.crp.assignments)
        cnt = counts_of({k: t for k, t in old.items() if k != r})
        data = dict(m.relation(r).data)
        doms = list(m.schema[r])

        def f(m2):
            m2.transition_cluster_assignment_relation(r)
            t = m2.crp.assignments[r]
            if {k: v for k, v in m2.crp.assignments.items() if k != r} != {k: v for k, v in old.items() if k != r}:
                raise Violation('relation-move-side-effect', 'moving %s also moved another relation' % r)
            irm = m2.relation_to_irm(r)
            a = {e: y.crp.assignments for e, y in irm.domains.items()}
            return (t if t in cnt else 'new'), rel_score(data, doms, a)
        res = run(f)
        if res is None:
            count['skipped draws'] = count.get('skipped draws', 0) + 1
            return
        want = softmax({o: math.log(cnt.get(o, m.crp.alpha) if o in cnt else m.crp.alpha) + s for o, s in res[1].items()})
        label, cls = 'relation %s' % r, 'relation-move'
    elif what == 'alpha':
        crps = [('relations', m.crp)] if hirm else []
        crps += [(d, irm.domains[d].crp) for irm in irms_of(m) for d in sorted(irm.domains)]
        crps = [c for c in crps if c[1].N]
        if not crps:
            return
        d, c = gr.choice(crps)

        def make(pin):
            c2, g2 = clone(c, g)
            if pin:
                g2.pin, g2.u = pin
            c2.transition_alpha()
            return '%.9g' % c2.alpha, g2.calls, None
        res = law(make, count)
        lo, hi, n = math.log(1 / c.N), math.log(c.N + 1), 30
        grid = [math.exp(lo + (hi - lo) * i / (n - 1)) for i in range(n)]
        cs = [len(s) for s in c.tables.values()]
        want = {'%.9g' % k: v for k, v in softmax({a: crp_score(cs, a) for a in grid}).items()}
        label, cls = 'concentration of %s' % d, 'alpha'
    elif what == 'seat':
        x = None
        for _ in range(6):
            x = new_cell(m, cfg, gr)
            if not x:
                return
            ds = list(m.schema[x[0]])
            irm = irm_of(m, x[0])
            new = []
            for d, i in zip(ds, x[1]):
                if i not in irm.domains[d].items and (d, i) not in new:
                    new.append((d, i))
            if new:
                break
        else:
            return
        last = new[-1]
        fixed = {}

        def f(m2):
            m2.incorporate(*x)
            irm2 = irm_of(m2, x[0])
            a = dict(irm2.domains[last[0]].crp.assignments)
            t = a.pop(last[1])
            cnt = counts_of(a)
            fixed['cnt'] = cnt
            return (t if t in cnt else 'new'), None
        res = run(f)
        if res is None:
            count['skipped draws'] = count.get('skipped draws', 0) + 1
            return
        cnt = fixed['cnt']
        want = {(k if k in cnt else 'new'): v for k, v in next_table(cnt, irm.domains[last[0]].crp.alpha).items()}
        label, cls = 'seat of new item %r of %s' % (last[1], last[0]), 'first-seat'
    elif what == 'newrel' and hirm:
        y = new_relation(m, cfg, gr)
        if not y:
            return
        cnt = counts_of(m.crp.assignments)

        def f(m2):
            m2.add_relation(*y)
            t = m2.crp.assignments[y[0]]
            return (t if t in cnt else 'new'), None
        res = run(f)
        want = {(k if k in cnt else 'new'): v for k, v in next_table(cnt, m.crp.alpha).items()}
        label, cls = 'seat of new relation', 'first-seat-relation'
    elif what == 'value':
        cl = [(r, k) for irm in irms_of(m) for r in sorted(irm.relations) for k in sorted(irm.relations[r].clusters)]
        if not cl:
            return
        r, k = gr.choice(cl)
        c0 = irm_of(m, r).relations[r].clusters[k]
        vals = [v for items, v in irm_of(m, r).relations[r].data.items()
                if irm_of(m, r).relations[r].get_cluster_assignment(items) == k]

        def make(pin):
            g2 = g.clone()
            c = H.BetaBernoulli(c0.alpha, c0.beta, prng=g2)
            for v in vals:
                c.incorporate(v)
            if pin:
                g2.pin, g2.u = pin
            return int(c.sample()), g2.calls, None
        res = law(make, count)
        p = (sum(vals) + 1) / (len(vals) + 2)
        want = {0: 1 - p, 1: p}
        label, cls = 'value of a cluster of %s' % r, 'value'
    else:
        return
    if canon(m) != before:
        raise Violation('aliasing', 'an operation on a deep copy changed the original model')
    if res is None:
        count['skipped draws'] = count.get('skipped draws', 0) + 1
        return
    count['draws checked ' + what] = count.get('draws checked ' + what, 0) + 1
    compare(res[0], want, res[2], cls, label)


def joint(irm, cells, m):
    """Probability of cells of different relations: sum over the seats of all
    unseen items, seated independently of each other."""
    uniq, by = [], {}
    for r, items, _ in cells:
        ds = [d.name for d in irm.relations[r].domains]
        for d, i in zip(ds, items):
            if (d, i) not in uniq:
                uniq.append((d, i))
        for it, v in irm.relations[r].data.items():
            k = tuple(irm.domains[d].crp.assignments[i] for d, i in zip(ds, it))
            by.setdefault((r, k), []).append(v)
    opts = []
    for d, i in uniq:
        c = irm.domains[d].crp
        opts.append([(c.assignments[i], 1.0)] if i in c.assignments else sorted(next_table(counts_of(c.assignments), c.alpha).items()))
    tot = 0.0
    for combo in itertools.product(*opts):
        at = dict(zip(uniq, [t for t, _ in combo]))
        w = math.prod(p for _, p in combo)
        for r, items, v in cells:
            ds = [d.name for d in irm.relations[r].domains]
            vs = by.get((r, tuple(at[(d, i)] for d, i in zip(ds, items))), [])
            p1 = (sum(vs) + 1) / (len(vs) + 2)
            w *= p1 if v else 1 - p1
        tot += w
    return tot


def check_logp(m, cfg, step, count):
    """Predictive of one cell: exact marginal over the seats of unseen items."""
    gr = random.Random(step[0])
    x = new_cell(m, cfg, gr)
    if not x:
        return
    r, items, _ = x
    before = canon(m)
    ds = list(m.schema[r])
    irm = irm_of(m, r)
    rel = irm.relations[r]
    assign = {d: dict(irm.domains[d].crp.assignments) for d in ds}
    by = {}
    for it, v in rel.data.items():
        by.setdefault(tuple(assign[d][i] for d, i in zip(ds, it)), []).append(v)
    uniq = []
    for d, i in zip(ds, items):
        if (d, i) not in uniq:
            uniq.append((d, i))
    opts = [{assign[d][i]: 1.0} if i in assign[d] else next_table(counts_of(assign[d]), irm.domains[d].crp.alpha)
            for d, i in uniq]
    fresh_ = [(d, i) for d, i in uniq if i not in assign[d]]
    # Two unseen items of one domain are documented to be seated independently.
    tot = 0.0
    for combo in itertools.product(*[sorted(o.items()) for o in opts]):
        w = math.prod(p for _, p in combo)
        at = dict(zip(uniq, [t for t, _ in combo]))
        vs = by.get(tuple(at[(d, i)] for d, i in zip(ds, items)), [])
        tot += w * (sum(vs) + 1) / (len(vs) + 2)
    p1, p0 = math.exp(m.logp([(r, items, 1)])), math.exp(m.logp([(r, items, 0)]))
    if canon(m) != before:
        raise Violation('logp-side-effect', 'asking for a probability changed the model')
    if abs(p0 + p1 - 1) > 1e-9:
        raise Violation('not-normalised', 'P(0)+P(1) = %.12g for %s%r' % (p0 + p1, r, items))
    if abs(p1 - tot) > 1e-9:
        raise Violation('predictive', 'P(1) = %.12g for %s%r, marginal over seats %.12g' % (p1, r, items, tot))
    if not (len(set(items)) < len(items) and fresh_):
        # Relation.logp seats each position separately, so only when they differ.
        q = math.exp(rel.logp(items, 1))
        if abs(q - tot) > 1e-9:
            raise Violation('predictive', 'Relation.logp: P(1) = %.12g for %s%r, marginal over seats %.12g' % (q, r, items, tot))
    # Cells of different sub-models are independent given the partitions; cells
    # of different relations of one sub-model share the seats of unseen items.
    r2 = gr.choice(sorted(m.schema))
    if r2 != r:
        ds2 = list(m.schema[r2])
        pool = dict(zip(ds, items))
        items2 = tuple(pool[d] if d in pool and gr.random() < 0.7 else gen_item(cfg, gr) for d in ds2)
        irm2 = irm_of(m, r2)
        if items2 not in irm2.relations[r2].data:
            v1, v2 = gr.randrange(2), gr.randrange(2)
            a = m.logp([(r, items, v1), (r2, items2, v2)])
            if irm2 is not irm:
                b = m.logp([(r, items, v1)]) + m.logp([(r2, items2, v2)])
                if abs(a - b) > 1e-9:
                    raise Violation('independence', 'joint log probability of %s%r and %s%r is %.12g, the sum is %.12g' % (r, items, r2, items2, a, b))
            else:
                b = math.log(joint(irm, [(r, items, v1), (r2, items2, v2)], m))
                if abs(a - b) > 1e-9:
                    raise Violation('predictive-joint', 'log probability of %s%r=%d and %s%r=%d is %.12g, marginal over seats %.12g' %
                                    (r, items, v1, r2, items2, v2, a, b))
                count['joint predictives checked'] = count.get('joint predictives checked', 0) + 1
    count['predictives checked'] = count.get('predictives checked', 0) + 1


# ------------------------------------------------------- restarted processes
def to_dict(m):
    return IO.to_dict_HIRM(m) if isinstance(m, H.HIRM) else IO.to_dict_IRM(m)


def from_dict(d, kind, g):
    return IO.from_dict_HIRM(d, prng=g) if kind == 'hirm' else IO.from_dict_IRM(d, prng=g)


def save_json(m, g, path):
    with open(path, 'w') as f:
        json.dump({'model': to_dict(m), 'prng': g.getstate()}, f)


def load_json(path, kind):
    with open(path) as f:
        d = json.load(f)
    g = Rng()
    s = d['prng']
    g.setstate((s[0], tuple(s[1]), s[2]))
    return from_dict(d['model'], kind, g), g


def save_txt(m, base):
    with open(base + '.schema', 'w') as f:
        for r, ds in m.schema.items():
            f.write('bernoulli %s %s\n' % (r, ' '.join(ds)))
    with open(base + '.obs', 'w') as f:
        for r in m.schema:
            for items, v in irm_of(m, r).relations[r].data.items():
                f.write('%g %s %s\n' % (v, r, ' '.join(map(str, items))))
    (IO.to_txt_hirm if isinstance(m, H.HIRM) else IO.to_txt_irm)(base + '.out', m)


def load_txt(base, kind):
    f = IO.from_txt_hirm if kind == 'hirm' else IO.from_txt_irm
    return f(base + '.schema', base + '.obs', base + '.out')


def canon_txt(m):
    """What the text form carries: partitions with labels, schema and data."""
    def crp(c):
        return sorted((t, sorted(map(repr, s))) for t, s in c.tables.items())

    def one(irm):
        return [sorted((r, list(ds)) for r, ds in irm.schema.items()),
                sorted((d, crp(x.crp)) for d, x in irm.domains.items()),
                sorted((r, sorted((repr(k), float(v)) for k, v in x.data.items()),
                        sorted((repr(k), c.N, float(c.s)) for k, c in x.clusters.items()),
                        '%.9g' % x.logp_score()) for r, x in irm.relations.items())]
    if isinstance(m, H.HIRM):
        return [sorted((r, list(ds)) for r, ds in m.schema.items()), crp(m.crp), sorted((t, one(i)) for t, i in m.irms.items())]
    return one(m)


def worker():
    """A restarted process: everything it knows came from the files."""
    random.seed(hash_int('worker', os.environ['PYTHONHASHSEED']))
    m = g = cfg = None
    for line in sys.stdin:
        q = json.loads(line)
        try:
            if q['cmd'] == 'load':
                cfg = q['cfg']
                m, g = load_json(q['path'], cfg['kind'])
                a = {'canon': canon(m), 'score': score(m), 'prng': digest(g.getstate())}
            elif q['cmd'] == 'op':
                apply(m, cfg, q['step'])
                a = {'canon': canon(m), 'score': score(m), 'prng': digest(g.getstate())}
            elif q['cmd'] == 'save':
                save_json(m, g, q['path'])
                a = {}
            elif q['cmd'] == 'txt':
                a = {'canon': canon_txt(load_txt(q['path'], q['cfg']['kind']))}
        except Exception as e:
            a = {'err': type(e).__name__, 'msg': traceback.format_exc()[-600:]}
        sys.stdout.write(json.dumps(a) + '\n')
        sys.stdout.flush()


class Process:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), 'worker'], env=env, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q) + '\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise Violation('restart-died', 'the restarted process died')
        return json.loads(l)


POOL = {}


def process(k):
    if k not in POOL:
        POOL[k] = Process(101 + 37 * k)
    return POOL[k]


# --------------------------------------------------------------------- plans
OPS = {
    'P23': [('obs', 6), ('titem', 4), ('tdom', 2), ('tall', 3), ('talpha', 2), ('trel', 3), ('trelall', 2), ('thalpha', 2),
            ('addrel', 2), ('rmrel', 1), ('setrel', 1), ('foreign', 3), ('ckpt', 5), ('txt', 2)],
    'P25': [('obs', 6), ('titem', 2), ('tall', 1), ('talpha', 1), ('trel', 2), ('thalpha', 1), ('addrel', 2), ('rmrel', 1),
            ('setrel', 1), ('draw', 12)],
    'P26': [('obs', 7), ('titem', 4), ('tdom', 2), ('tall', 2), ('talpha', 2), ('trel', 4), ('trelall', 2), ('thalpha', 1),
            ('addrel', 3), ('rmrel', 2), ('setrel', 2), ('dup', 2), ('logp', 6), ('foreign', 1)],
}


def gen_plan(prop, seed, run, tier):
    g = random.Random('%s/%s/%s' % (prop, seed, run))
    kind = 'hirm' if g.random() < 0.65 else 'irm'
    big = g.random() < 0.15
    steps = [[g.getrandbits(48), 'model', [kind, str(g.randint(1, 3)), str(g.choice([3, 5, 8, 12]) if not big else 25),
                                          str(g.randint(1, 6)), g.choice(['int', 'str', 'mix']),
                                          g.choice(['0.5', '0.8', '1.0'])]]]
    for _ in range(g.randint(1, 4)):
        steps.append([g.getrandbits(48), 'addrel', []])
    steps.append([g.getrandbits(48), 'obs', [str(g.randint(1, 12) if not big else 60)]])
    ops, ws = zip(*OPS[prop])
    n = g.randint(4, 26 if tier else 18)
    for _ in range(n):
        op = g.choices(ops, ws)[0]
        args = []
        if op == 'obs':
            args = [str(g.choice([1, 1, 2, 4, 8]))]
        elif op == 'ckpt':
            args = [str(g.randrange(3))]
        elif op == 'txt':
            args = [str(g.randrange(3))]
        elif op == 'draw':
            args = [g.choices(['item', 'relation', 'alpha', 'seat', 'newrel', 'value'], [8, 6, 1, 3, 2, 1])[0]]
        steps.append([g.getrandbits(48), op, args])
    return {'prop': prop, 'seed': seed, 'run': run, 'steps': steps}


def write_plan(plan, path, head):
    with open(path, 'w') as f:
        for h in head:
            f.write('# ' + h.replace('\n', ' | ') + '\n')
        f.write('property %s\nseed %s\nrun %s\n' % (plan['prop'], plan['seed'], plan['run']))
        for s, op, args in plan['steps']:
            f.write('step %d %s %s\n' % (s, op, ' '.join(args)))


def read_plan(path):
    p = {'steps': []}
    for l in open(path):
        w = l.split()
        if not w or w[0] == '#' or l.startswith('#'):
            continue
        if w[0] == 'property': p['prop'] = w[1]
        elif w[0] == 'seed': p['seed'] = int(w[1])
        elif w[0] == 'run': p['run'] = int(w[1])
        elif w[0] == 'step': p['steps'].append([int(w[1]), w[2], w[3:]])
    return p


# ----------------------------------------------------------------- execution
def execute(plan):
    """Returns (class or None, message, hash, stats)."""
    count, states, log = {}, [], hashlib.sha1()
    prop = plan['prop']

    def bump(k, n=1):
        count[k] = count.get(k, 0) + n
    cls = msg = None
    base = os.path.join(SCRATCH, 'py_%d' % os.getpid())
    random.seed(hash_int('main', plan['seed'], plan['run']))
    active = None
    snaps = []
    try:
        if not plan['steps'] or plan['steps'][0][1] != 'model':
            return None, '', '0', (count, states, 0)
        cfg = cfg_of(plan['steps'][0])
        m, g = fresh(cfg, plan['steps'][0][0])
        mirror = Mirror()
        op = 'model'

        def compare_remote(a, where):
            if 'err' in a:
                raise Violation('restart-exception:' + a['err'], '%s: the restarted process raised: %s' % (where, a['msg']))
            mine = json.loads(json.dumps(canon(m)))
            if a['canon'] != mine:
                raise Violation('restart-state' if where.startswith('restore') else 'restart-diverges',
                                '%s: the restarted process holds %s, without the restart %s' %
                                (where, json.dumps(a['canon'])[:700], json.dumps(mine)[:700]))
            if a['prng'] != digest(g.getstate()):
                raise Violation('restart-draws', '%s: the restarted process consumed other draws' % where)
            s = score(m)
            if abs(a['score'] - s) > 1e-9 * max(1, abs(s)):
                raise Violation('restart-score', '%s: score %.15g, without the restart %.15g' % (where, a['score'], s))

        for k, step in enumerate(plan['steps'][1:], 1):
            op = step[1]
            where = 'step %d (%s)' % (k, op)
            bump('step ' + op)
            if op == 'ckpt':
                p = process(int(step[2][0]))
                path = base + '.json'
                if active is not None and active is not p:
                    a = active.ask(cmd='save', path=path)
                    if 'err' in a:
                        raise Violation('save-exception:' + a['err'], a['msg'])
                else:
                    save_json(m, g, path)
                snaps.append((to_dict(m), copy.deepcopy(to_dict(m))))
                active = p
                bump('fault.crash_and_restart_other_process')
                compare_remote(p.ask(cmd='load', path=path, cfg=cfg), 'restore at ' + where)
            elif op == 'txt':
                if not all(d.crp.N or True for i in irms_of(m) for d in i.domains.values()) or not m.schema:
                    continue
                save_txt(m, base)
                p = process(int(step[2][0]))
                bump('fault.restart_from_text_files')
                a = p.ask(cmd='txt', path=base, cfg=cfg)
                if 'err' in a:
                    raise Violation('text-exception:' + a['err'], '%s: %s' % (where, a['msg']))
                mine = json.loads(json.dumps(canon_txt(m)))
                if a['canon'] != mine:
                    raise Violation('text-state', '%s: read back %s, written from %s' %
                                    (where, json.dumps(a['canon'])[:700], json.dumps(mine)[:700]))
            elif op == 'draw':
                check_draw(m, g, cfg, step, count)
            elif op == 'logp':
                check_logp(m, cfg, step, count)
            elif op == 'dup':
                gr = random.Random(step[0])
                cells = [(r, i) for r in sorted(m.schema) for i in sorted(irm_of(m, r).relations[r].data, key=repr)]
                if cells:
                    before = canon(m)
                    r, i = gr.choice(cells)
                    bump('fault.duplicate_observation')
                    accepted = True
                    try:
                        m.incorporate(r, i, gr.randrange(2))
                    except Exception:
                        accepted = False
                    if accepted:
                        raise Violation('duplicate-accepted', '%s: a second value for %s%r was accepted' % (where, r, i))
                    if canon(m) != before:
                        raise Violation('duplicate-changed-model', '%s: a rejected duplicate changed the model' % where)
            else:
                if op == 'foreign':
                    bump('fault.foreign_use_of_shared_generator')
                done = apply(m, cfg, step)
                mirror.note(done)
                if active is not None:
                    compare_remote(active.ask(cmd='op', step=step), where)
            if prop == 'P26':
                mirror.check(m)
            else:
                for r, want in mirror.data.items():
                    if irm_of(m, r).relations[r].data != want:
                        raise Violation('data', '%s: data of %s changed' % (where, r))
            c = canon(m)
            d = digest(c)
            states.append(d)
            log.update(d.encode())
        for live, saved in snaps:
            if live != saved:
                raise Violation('saved-form-changed', 'a dictionary form changed after the model it was taken from went on')
        if snaps and prop == 'P23':
            # Restoring and going on leaves the saved form alone.
            d, saved = snaps[-1]
            m2 = from_dict(d, cfg['kind'], Rng(5))
            before = canon(m2)
            for step in plan['steps'][1:6]:
                if step[1] in ('obs', 'titem', 'tall', 'trel', 'addrel', 'talpha', 'rmrel'):
                    apply(m2, cfg, step)
            if d != saved:
                raise Violation('saved-form-changed', 'a dictionary form changed when a restored model went on')
            if canon(from_dict(d, cfg['kind'], Rng(5))) != before:
                raise Violation('saved-form-changed', 'restoring the same dictionary twice gives different models')
    except Violation as v:
        cls, msg = v.cls, v.msg
    except Exception as e:
        cls, msg = 'exception:%s:%s' % (op, type(e).__name__), traceback.format_exc()[-900:]
    if cls:
        log.update((cls + msg[:0]).encode())
    return cls, msg, log.hexdigest()[:16], (count, states, len(plan['steps']))


INFO = {
    'P23': ('a run is non-trivial if at least one restart happened and at least one step ran after it',
            lambda c: c.get('fault.crash_and_restart_other_process', 0) + c.get('fault.restart_from_text_files', 0) > 0),
    'P25': ('a run is non-trivial if the law of at least one draw was compared',
            lambda c: any(k.startswith('draws checked') for k in c)),
    'P26': ('a run is non-trivial if at least one relation, observation and inference step was executed',
            lambda c: c.get('step obs', 0) > 0 and any(c.get('step ' + k) for k in ('titem', 'tall', 'tdom', 'trel', 'trelall'))),
}


def explore_worker(j, prop, seed, tier, runs, jobs, maxsec, out, known):
    t0 = time.time()
    evals = nontriv = 0
    total, hs, ss, capped = {}, set(), set(), -1
    for run in range(j, runs, jobs):
        if time.time() - t0 > maxsec:
            capped = run
            break
        plan = gen_plan(prop, seed, run, tier)
        cls, msg, h, (count, states, n) = execute(plan)
        evals += 1
        for k, v in count.items():
            total[k] = total.get(k, 0) + v
        ss.update(states)
        if INFO[prop][1](count):
            nontriv += 1
            hs.add(h)
        if cls:
            if cls in known:
                total['known.' + cls] = total.get('known.' + cls, 0) + 1
            else:
                write_plan(plan, '%s/viol_%d.plan' % (out, run), ['class ' + cls, 'hash ' + h, msg])
        elif run < 3:
            write_plan(plan, '%s/sample_%d.plan' % (out, run), ['no violation', 'hash ' + h])
    with open('%s/w%d.txt' % (out, j), 'w') as f:
        f.write('evals %d\nnontriv %d\nsimtime 0\ncapped %d\n' % (evals, nontriv, capped))
        for k, v in total.items():
            f.write('n %s %d\n' % (k, v))
        for h in hs: f.write('h %s\n' % h)
        for s in ss: f.write('s %s\n' % s)


def close_pool():
    for p in POOL.values():
        p.p.stdin.close()
        p.p.wait()


def main():
    cmd = sys.argv[1]
    if cmd == 'worker':
        worker()
    elif cmd == 'info':
        prop = sys.argv[2]
        print('rule ' + INFO[prop][0])
        print('real /repo/src/hirm.py, util_io.py, util_math.py, unmodified; json; the file system under a scratch directory')
        if prop == 'P23':
            print('real restarted processes are real separate interpreters')
        print('stub the model\'s generator is a seeded random.Random that counts its draws%s' %
              (' and can pin one of them' if prop == 'P25' else ''))
        print('stub hash seeds and the shared generator of every process are fixed by the simulator')
    elif cmd == 'explore':
        prop, seed, tier, runs, jobs, maxsec, out, known = sys.argv[2:10]
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), 'part', str(j)] + sys.argv[2:10]) for j in range(int(jobs))]
        rc = [p.wait() for p in ps]
        sys.exit(1 if any(rc) else 0)
    elif cmd == 'part':
        j, prop, seed, tier, runs, jobs, maxsec, out, known = sys.argv[2:11]
        explore_worker(int(j), prop, int(seed), int(tier), int(runs), int(jobs), float(maxsec), out, set(known.split('\x1f')) - {''})
        close_pool()
    elif cmd == 'replay':
        plan = read_plan(sys.argv[2])
        cls, msg, h, _ = execute(plan)
        close_pool()
        if cls:
            print('class=%s hash=%s\n%s' % (cls, h, msg))
            sys.exit(1)
        print('no violation hash=%s' % h)
    elif cmd == 'minimise':
        plan, dst, sec = read_plan(sys.argv[2]), sys.argv[3], float(sys.argv[4])
        t0 = time.time()
        cls, msg, h, _ = execute(plan)
        cls2, msg2, h2, _ = execute(plan)
        if not cls or (cls2, h2) != (cls, h):
            print('did not reproduce: %r %r' % ((cls, h), (cls2, h2)))
            sys.exit(2)
        steps = plan['steps']
        n = max(1, len(steps) // 2)
        while n >= 1 and time.time() - t0 < sec:
            i, shrunk = 1, False
            while i < len(steps) and time.time() - t0 < sec:
                cand = steps[:i] + steps[i + n:]
                if execute(dict(plan, steps=cand))[0] == cls:
                    steps, shrunk = cand, True
                else:
                    i += n
            n = n // 2 if n > 1 or not shrunk else 1
            if n == 0:
                break
        for s in steps:
            if s[1] == 'obs' and time.time() - t0 < sec:
                while int(s[2][0]) > 1:
                    old = s[2]
                    s[2] = [str(int(old[0]) // 2)]
                    if execute(dict(plan, steps=steps))[0] != cls:
                        s[2] = old
                        break
        plan['steps'] = steps
        cls, msg, h, _ = execute(plan)
        write_plan(plan, dst, ['class ' + cls, 'hash ' + h, msg])
        r = subprocess.run([sys.executable, os.path.abspath(__file__), 'replay', dst], capture_output=True, text=True)
        close_pool()
        if 'class=%s hash=%s' % (cls, h) not in r.stdout:
            print('the minimised plan did not reproduce: ' + r.stdout[-300:])
            sys.exit(2)
    else:
        sys.exit('unknown command')


main() if __name__ == '__main__' else None
