#!/usr/bin/env python3
import sys
sys.path.insert(0, '/verif/tools/plants')
import lib
ONLY = set(sys.argv[1:])

def P(id, *a, **k):
    if not ONLY or id in ONLY: lib.plant(id, *a, **k)

PYRUN = r'''
cat > load.py <<'E'
import importlib.util, sys
sys.dont_write_bytecode = True
s = importlib.util.spec_from_file_location('hirm', '/repo/src/__init__.py', submodule_search_locations=['/repo/src'])
m = importlib.util.module_from_spec(s); sys.modules['hirm'] = m; s.loader.exec_module(m)
E
'''

def py(code, env=''):
    return PYRUN + 'cp "$here/demo.py" .\n' + (env or 'timeout 250 python3 demo.py\n'), {'demo.py': 'import load, sys, random, json, math\nfrom hirm import hirm as H, util_io as IO\n' + code}

def PP(id, prop, edits, needs, breaks, code, env=''):
    sh, files = py(code, env)
    P(id, prop, edits, needs, breaks, sh=sh, files=files)

PP('p23-tables-saved-sorted', 'P23',
  [('src/util_io.py', "        'tables': {repr(t): list(v) for t,v in x.tables.items()},\n        'assignments'",
    "        'tables': {repr(t): list(x.tables[t]) for t in sorted(x.tables)},\n        'assignments'")],
  'a relation partition in which a lone relation was reseated, so that its clusters are not in the order of their labels, and inference continued after a restore',
  'a restored model consumes the same draws in another order of the clusters and takes another course',
r'''
bad = 0
for seed in range(60):
    g = random.Random(seed)
    m = H.HIRM({'R%d' % k: ('D1',) for k in range(4)}, prng=g)
    for i in range(6):
        for k in range(4): m.incorporate('R%d' % k, (i,), (i * 7 + k * 5 + seed) // 3 % 2)
    for _ in range(4): m.transition_cluster_assignments()
    g2 = random.Random()
    saved = json.loads(json.dumps(IO.to_dict_HIRM(m))); g2.setstate(g.getstate())
    n = IO.from_dict_HIRM(saved, prng=g2)
    for _ in range(4): m.transition_cluster_assignments(); n.transition_cluster_assignments()
    if m.crp.assignments != n.crp.assignments: bad += 1
print('diverged in', bad); sys.exit(bad > 0)
''')

PP('p23-domains-from-a-set', 'P23',
  [('src/hirm.py', '''    def transition_cluster_assignments(self, domains=None):
        if domains is None:
            domains = list(self.domains)
            self.prng.shuffle(domains)
        for d in domains:
            # The''', '''    def transition_cluster_assignments(self, domains=None):
        if domains is None:
            domains = list({d for ds in self.schema.values() for d in ds})
            self.prng.shuffle(domains)
        for d in domains:
            # The''')],
  'at least two domains and a process with another hash order',
  'the order in which domains are visited, and with it every later draw, depends on the process',
r'''
g = random.Random(3)
m = H.IRM({'R1': ('D1', 'D2'), 'R2': ('D2', 'D3'), 'R3': ('D3', 'D4')}, prng=g)
for i in range(6):
    for j in range(6):
        for r in ('R1', 'R2', 'R3'):
            if (i + 2 * j + len(r)) % 3: m.incorporate(r, (i, j), (i // 3 + j // 3) % 2)
for _ in range(10): m.transition_cluster_assignments()
print(sorted((d, sorted(x.crp.assignments.items())) for d, x in m.domains.items()))
''', 'for h in 0 1 2 3 4 5 6 7; do PYTHONHASHSEED=$h python3 demo.py > out.$h; done\nfor h in 1 2 3 4 5 6 7; do cmp out.0 out.$h; done\n')

PP('p25-own-seat-of-relation', 'P25',
  [('src/hirm.py', '''        crp_dist = self.crp.tables_weights_gibbs(table_current)
        (table_aux, irm_aux) = (None, None)''', '''        if len(self.crp.tables[table_current]) == 1:
            crp_dist = self.crp.tables_weights_gibbs(table_current)
        else:
            crp_dist = self.crp.tables_weights()
        (table_aux, irm_aux) = (None, None)''')],
  'a relation that shares its sub-model with others; visible only in frequencies',
  'the prior weight of the current sub-model counts the relation that is being moved',
r'''
stay = n = 0
for seed in range(4000):
    m = H.HIRM({'R1': ('D1',), 'R2': ('D2',)}, prng=random.Random(seed))
    if m.crp.assignments['R1'] != m.crp.assignments['R2']:
        m.set_cluster_assignment_gibbs('R2', m.crp.assignments['R1'])
    m.transition_cluster_assignment_relation('R2')
    n += 1; stay += m.crp.assignments['R1'] == m.crp.assignments['R2']
print(stay / n); sys.exit(abs(stay / n - 0.5) > 0.05)
''')

PP('p25-fresh-cluster-cells-independent', 'P25',
  [('src/hirm.py', '''        cluster = self.clusters.get(z, self.aux())
        logp0 = cluster.logp_score()
        for items in items_list:
            # assert''', '''        cluster = self.clusters.get(z)
        if cluster is None:
            # Nothing to build up and take down again.
            aux = self.aux()
            return sum(aux.logp(self.data[items]) for items in items_list)
        logp0 = cluster.logp_score()
        for items in items_list:
            # assert''')],
  'an item with several cells that would fall into one new data cluster; visible only in frequencies',
  'the likelihood of opening a new cluster treats the cells in it as independent',
r'''
new = n = 0
for seed in range(4000):
    m = H.IRM({'R1': ('D1', 'D2')}, prng=random.Random(seed))
    m.domains['D1'].incorporate(0, table=0); m.domains['D1'].incorporate(1, table=0)
    for j in range(4): m.domains['D2'].incorporate(j, table=0)
    for j in range(4): m.incorporate('R1', (0, j), 1); m.incorporate('R1', (1, j), 0)
    m.transition_cluster_assignment_item('D1', 1)
    n += 1; new += m.domains['D1'].crp.assignments[1] != 0
# new: 1/5; joining four ones with four zeros: B(5,5)/B(5,1) = 1/126
p = (1 / 5) / (1 / 5 + 1 / 126)
print(new / n, p); sys.exit(abs(new / n - p) > 0.02)
''')

PP('p26-batch-seats-by-relation', 'P26',
  [('src/hirm.py', '''            if item in domain.items:
                t_list = (domain.get_cluster_assignment(item),)''', '''            if relation.has_observation(domain, item):
                t_list = (domain.get_cluster_assignment(item),)''')],
  'a cell whose item is known to its domain through another relation only',
  'the item is treated as unseen and its probability averaged over all clusters',
r'''
m = H.IRM({'R1': ('D1',), 'R2': ('D1',)}, prng=random.Random(1))
for i in range(4): m.domains['D1'].incorporate(i, table=i // 2)
for i in range(4): m.incorporate('R1', (i,), i // 2)
for i in (0, 2): m.incorporate('R2', (i,), i // 2)
p = math.exp(m.logp([('R2', (1,), 1)]))
print(p); sys.exit(abs(p - 1 / 3) > 1e-9)
''')

PP('p26-batch-of-single-cells', 'P26',
  [('src/hirm.py', '''        logps = (self.irms[t].logp(obs_dict[t]) for t in obs_dict)
        return sum(logps)''', '''        logps = []
        for t, obs in obs_dict.items():
            if len({r for r, _, _ in obs}) == len(obs):
                # Cells of different relations never share a cluster.
                logps += [self.irms[t].relations[r].logp(i, v) for r, i, v in obs]
            else:
                logps.append(self.irms[t].logp(obs))
        return sum(logps)''')],
  'a batch with cells of two relations of one sub-model that share an unseen item',
  'the cells are treated as independent although the unseen item takes one seat in both',
r'''
m = H.HIRM({'R1': ('D1',), 'R2': ('D1',)}, prng=random.Random(1))
if m.crp.assignments['R1'] != m.crp.assignments['R2']: m.set_cluster_assignment_gibbs('R2', m.crp.assignments['R1'])
irm = m.relation_to_irm('R1')
for i in range(8): irm.domains['D1'].incorporate(i, table=i // 4)
for i in range(8): m.incorporate('R1', (i,), i // 4); m.incorporate('R2', (i,), i // 4)
irm.domains['D1'].crp.alpha = 2.0
w = [(4 / 10, 1 / 6), (4 / 10, 5 / 6), (2 / 10, 1 / 2)]
want = sum(a * p * p for a, p in w)
got = math.exp(m.logp([('R1', ('x',), 1), ('R2', ('x',), 1)]))
print(got, want); sys.exit(abs(got - want) > 1e-9)
''')

P('p22-emptied-cluster-leaks', 'P22',
  [('cxx/clean_relation.hh', '''      if (cluster_prev->N == 0) {
        delete clusters.at(z_prev);
        clusters.erase(z_prev);
      }
      // Move to desired''', '''      if (cluster_prev->N == 0) {
        clusters.erase(z_prev);
      }
      // Move to desired''')],
  'an entity that moves out of a cluster of its own; nothing but the memory use shows it',
  'a data cluster that becomes empty when an entity moves is never released',
  cc=r'''
#include <malloc.h>
#include <new>
static long live = 0;
void* operator new(size_t n) { ++live; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; free(p); }
static long once() {
  long before = live;
  {
    std::mt19937 prng(5);
    T_schema s;
    s["R"] = clean("bernoulli", {"D", "E"});
    IRM irm(s);
    for (int i = 0; i < 6; ++i)
      for (int j = 0; j < 4; ++j) irm.incorporate(&prng, "R", {i, j}, (i * j) % 3 == 0);
    for (int k = 0; k < 20; ++k) irm.transition_cluster_assignments_all(&prng);
  }
  return live - before;
}
int main() {
  once();
  long a = once(), b = once();
  CHECK(a <= 0 || b <= 0, "each model leaves allocations behind: %ld, %ld", a, b);
}
''')

P('p22-signed-hash-overflow', 'P22',
  [('cxx/util_hash.hh', '''    for (auto& i : V) {
      hash ^= i + 0x9e3779b9 + (hash << 6) + (hash >> 2);
    }''', '''    for (auto& i : V) {
      hash = hash * 16777619 ^ i;
    }''')],
  'keys with two or more coordinates; compilers usually let the overflow wrap, so results look right',
  'hashing a key overflows a signed integer, which is undefined behaviour',
  sh=r'''
cat > d.cc <<'E'
#include "util_hash.hh"
#include <cstdio>
int main() {
  unsigned x = 0;
  for (int i = -3; i < 40; ++i)
    for (int j = 0; j < 40; ++j)
      for (int k = 0; k < 5; ++k) x ^= (unsigned)VectorIntHash{}({i * 1000, j, k}) ^ (unsigned)VectorIntHash{}({i}) ^ (unsigned)VectorIntHash{}({i, j});
  printf("%u\n", x);
}
E
g++ -std=c++20 -O1 -fsanitize=undefined -fno-sanitize-recover=all -iquote /repo/cxx d.cc -o d
./d
''')
