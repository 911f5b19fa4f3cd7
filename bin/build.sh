#!/bin/bash
# Builds the simulator from /repo's current working tree.
# usage: build.sh OUTDIR [asan]
set -e
OUT=$1; MODE=${2:-plain}
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT"
OUT=$(cd "$OUT" && pwd)
CXX=g++
FLAGS="-std=c++20 -O1 -DNDEBUG -w -fno-omit-frame-pointer -iquote $REPO/cxx -I$HERE/sim"
SAR=_ZN4HIRM31sample_and_incorporate_relationEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKSt6vectorIiSaIiEE
GIN=_ZN5GenDB11incorporateEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EERKSt4pairIiSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt7variantIJbdiSA_EESt4lessISA_ESaIS3_IKSA_SC_EEEEb
HLP=_Z4logpPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EESt7variantIJP3IRMP4HIRMEERKSt4pairISt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_ISF_iSt4lessISF_ESaIS8_IKSF_iEEESH_SaIS8_ISI_SL_EEES9_ISF_S9_IiSF_SG_IiESaIS8_IKiSF_EEESH_SaIS8_ISI_ST_EEEERKSt13unordered_mapISF_St6vectorISt5tupleIJS11_ISF_SaISF_EESF_EESaIS15_EESt4hashISF_ESt8equal_toISF_ESaIS8_ISI_S17_EEE
LIBS="-ldl -Wl,--wrap=exit -Wl,--wrap=$SAR -Wl,--wrap=$GIN -Wl,--wrap=$HLP -rdynamic"
if [ "$MODE" = asan ]; then
  FLAGS="$FLAGS -DSIM_ASAN -D_GLIBCXX_ASSERTIONS -g1 -fsanitize=address,undefined -fno-sanitize-recover=all"
  LIBS="$LIBS -fsanitize=address,undefined"
fi
python3 - "$OUT" "$REPO" "$HERE" "$CXX" "$FLAGS" "$LIBS" <<'P'
import glob,os,sys
out,repo,here,cxx,flags,libs=sys.argv[1:]
src=[]
for d in ('','distributions','emissions','pclean'):
    for f in sorted(glob.glob(os.path.join(repo,'cxx',d,'*.cc'))):
        b=os.path.basename(f)
        if b.endswith('_test.cc') or b=='typename_playground.cc': continue
        src.append((f,os.path.join(out,'lib_'+(d+'_' if d else '')+b[:-3]+'.o')))
for f in sorted(glob.glob(os.path.join(here,'sim','*.cc'))):
    src.append((f,os.path.join(out,'sim_'+os.path.basename(f)[:-3]+'.o')))
# heaviest first
src.sort(key=lambda p:-os.path.getsize(p[0])-(200000 if any(k in p[0] for k in ('irm.cc','gendb.cc','inference.cc','w_','model.cc')) else 0))
objs=' '.join(o for _,o in src)
with open(os.path.join(out,'Makefile'),'w') as m:
    m.write('all: %s/sim\n'%out)
    m.write('%s/sim: %s\n\t%s %s -o $@ %s %s\n'%(out,objs,cxx,flags,objs,libs))
    for f,o in src:
        extra=''
        if f.endswith('/hirm_main.cc'): extra='-Dmain=hirm_main_entry'
        if f.endswith('/pclean/pclean.cc'): extra='-Dmain=pclean_main_entry'
        m.write('%s: %s\n\t%s %s %s -MMD -MP -c $< -o $@\n'%(o,f,cxx,flags,extra))
    m.write('-include %s/*.d\n'%out)
P
make -s -j"$(nproc)" -f "$OUT/Makefile" all
