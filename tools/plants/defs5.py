import sys
sys.path.insert(0, '/verif/tools/plants')
import lib
ONLY = sys.argv[1:]
def P(id, *a, **k):
    if not ONLY or id in ONLY: lib.plant(id, *a, **k)

P('p28-scored-before-learning', 'P28',
  [('cxx/hirm_main.cc', '''              << std::endl;
    inference_hirm(&prng, hirm, iters, timeout, verbose);
''', '''              << std::endl;
    // Score the held out data while the encoding is at hand.
    double lp = held_out.empty() ? 0.0
                                 : logp(&prng, hirm, encoding, heldout_obs);
    inference_hirm(&prng, hirm, iters, timeout, verbose);
'''),
   ('cxx/hirm_main.cc', '''      double lp = logp(&prng, hirm, encoding, heldout_obs);
''', '')],
  'a run of the relational model with held-out data whose inference changes the model',
  'the printed likelihood is that of the model before any inference, not of the one that is saved',
  sh=r'''
printf 'R ~ bernoulli(D, E)\n' > m.schema
for i in 1 2 3 4 5 6 7 8; do for j in 1 2 3 4 5 6 7 8; do
  [ "$i$j" = 11 ] || echo "$(( (i % 2) ^ (j % 2) )),R,d$i,e$j"
done; done > m.obs
echo "0,R,d1,e1" > h.obs
sc() { timeout 100 "$HIRM" --mode=hirm --seed=$1 --iters=$2 --heldout=h.obs m | sed -n 's/^Log likelihood of held out data is //p'; }
same=1
for s in 1 2 3 4; do
  a=$(sc $s 0); b=$(sc $s 30)
  [ -n "$a" ] && [ -n "$b" ] || { echo "nothing was printed"; exit 1; }
  [ "$a" = "$b" ] || same=0
done
if [ $same = 1 ]; then echo "thirty iterations never change the held-out likelihood: $a"; exit 1; fi
echo ok
''')

P('p28-heldout-rows-join-training', 'P28',
  [('cxx/pclean/pclean.cc', '''  // Run inference
  std::cout << "Running inference ...\\n";
''', '''  // Read the held out rows first, so that a bad file is noticed early.
  std::string heldout_fn = result["heldout"].as<std::string>();
  double lp1 = 0.0;
  if (!heldout_fn.empty()) {
    std::cout << "Loading held out observations from " << heldout_fn << std::endl;
    DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
    std::cout << "Incorporating held out observations ...\\n";
    lp1 = gendb.logp_score();
    incorporate_observations(&prng, &gendb, heldout_df, next_row);
    next_row += heldout_df.num_rows();
  }

  // Run inference
  std::cout << "Running inference ...\\n";
'''), ('cxx/pclean/pclean.cc', '''  std::string heldout_fn = result["heldout"].as<std::string>();
  if (!heldout_fn.empty()) {
    std::cout << "Loading held out observations from " << heldout_fn << std::endl;
    DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
    std::cout << "Incorporating held out observations ...\\n";
    double lp1 = gendb.logp_score();
    incorporate_observations(&prng, &gendb, heldout_df, next_row);
    next_row += heldout_df.num_rows();
    double lp2''', '''  if (!heldout_fn.empty()) {
    double lp2''')],
  'a pclean run with a held-out table',
  'the held-out rows take part in inference, change the saved result, and their likelihood is measured across it',
  sh=r'''
printf 'class City\n  s ~ bool\n\nclass Rec\n  city ~ City\n  t ~ bool\n\nobserve\n  city.s as S\n  t as T\n  from Rec\n' > c.schema
printf 'S,T\n0,1\n1,1\n0,0\n' > c.csv
printf 'S,T\n1,0\n1,1\n' > h.csv
for s in 1 2 3; do
  timeout 100 "$PCLEAN" --schema=c.schema --obs=c.csv --seed=$s --iters=3 --output=a > out.txt
  timeout 100 "$PCLEAN" --schema=c.schema --obs=c.csv --seed=$s --iters=3 --output=b --heldout=h.csv > out2.txt
  grep -q 'Log likelihood of held out' out2.txt || { echo "nothing was printed"; exit 1; }
  cmp -s a b || { echo "seed $s: held-out rows change what is learned"; exit 1; }
done
echo ok
''')

P('p28-one-value-per-relation', 'P28',
  [('cxx/util_io.cc', '''    for (const auto& [items, value] : obs_for_rel) {
      ObservationVariant ov;
      std::visit([&](const auto& r) { ov = r->from_string(value); }, rel_var);
      logp_obs.push_back(make_tuple(relation, items, ov));
''', '''    ObservationVariant ov;
    std::string parsed;
    for (const auto& [items, value] : obs_for_rel) {
      // Most lines repeat the value of the line before.
      if (parsed.empty() || value.size() != parsed.size()) {
        parsed = value;
        std::visit([&](const auto& r) { ov = r->from_string(value); }, rel_var);
      }
      logp_obs.push_back(make_tuple(relation, items, ov));
''')],
  'a held-out file with two different values of the same length in one relation',
  'the second line is scored with the value of the first',
  sh=r'''
printf 'R ~ bernoulli(D)\n' > m.schema
for i in 1 2 3 4 5 6; do echo "1,R,a$i"; done > m.obs
echo "0,R,a7" >> m.obs
total=0
printf '' > lps
for v in 0 1; do for w in 0 1; do
  printf "$v,R,b1\n$w,R,b2\n" > h.obs
  timeout 100 "$HIRM" --mode=irm --seed=3 --iters=2 --heldout=h.obs m | sed -n 's/^Log likelihood of held out data is //p' >> lps
done; done
python3 - <<'P'
import math
l = [float(x) for x in open('lps')]
assert len(l) == 4, l
t = sum(math.exp(x) for x in l)
assert abs(t - 1) < 1e-3, 'probabilities of all values of two cells add up to %g' % t
P
echo ok
''')
