"""Helper for writing planted bugs: patch.diff from (file, old, new) edits."""
import json, os, shutil, subprocess, tempfile

SEEDED = '/verif/seeded'
DEMO_HH = r'''
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <random>
#include <sstream>
#include <string>
#include "gendb.hh"
#include "hirm.hh"
#include "inference.hh"
#include "irm.hh"
#include "util_io.hh"
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED: %s\n  ", #c); printf(__VA_ARGS__); printf("\n"); std::exit(1); } } while (0)
inline T_clean_relation clean(const std::string& dist, const std::vector<std::string>& doms, bool observed = true) {
  T_clean_relation r; r.domains = doms; r.is_observed = observed;
  r.distribution_spec = DistributionSpec(dist); return r;
}
inline T_noisy_relation noisy(const std::string& em, const std::string& base, const std::vector<std::string>& doms, bool observed = true) {
  T_noisy_relation r; r.domains = doms; r.is_observed = observed; r.base_relation = base;
  r.emission_spec = EmissionSpec(em); return r;
}
'''
CC_SH = r'''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
objs=$(find /repo/_build/obj -name '*.o' | grep -v -e _test -e /tests/ -e hirm_main -e typename_playground -e pclean/pclean.cc)
g++ -std=c++20 -O1 -iquote /repo/cxx -iquote "$here" "$here/demo.cc" $objs -o "$tmp/demo"
cd "$tmp"
timeout 200 ./demo > "$tmp/out.txt" || { grep -v -e '^Starting' "$tmp/out.txt" | tail -5; exit 1; }
echo ok
'''
SH_HEAD = r'''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp"
HIRM=/repo/_build/bin-opt/hirm
PCLEAN=/repo/_build/bin-opt/pclean/pclean
'''


def plant(id, prop, edits, needs, breaks, cc=None, sh=None, files=None):
    tmp = tempfile.mkdtemp(prefix='plant')
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', tmp + '/w'], check=True)
        for f, old, new in edits:
            p = os.path.join(tmp, 'w', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', tmp + '/w', 'diff'], check=True, stdout=subprocess.PIPE, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp + '/w'])
        os.rmdir(tmp)
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if cc:
        open(d + '/demo.hh', 'w').write(DEMO_HH)
        open(d + '/demo.cc', 'w').write('#include "demo.hh"\n' + cc)
        open(d + '/demo.sh', 'w').write(CC_SH)
    else:
        open(d + '/demo.sh', 'w').write(SH_HEAD + sh)
    os.chmod(d + '/demo.sh', 0o755)
    for name, text in (files or {}).items():
        open(d + '/' + name, 'w').write(text)
    print('wrote', id)
