#!/usr/bin/env python3
import sys
sys.path.insert(0, '/verif/tools/plants')
import lib
ONLY = set(sys.argv[1:])

def P(id, *a, **k):
    if not ONLY or id in ONLY: lib.plant(id, *a, **k)

P('p27-unknown-relation-skipped', 'P27',
  [('cxx/util_io.cc', '''      printf("Can not find %s in schema\\n", relname.c_str());
      std::exit(1);
    }
''', '''      printf("Can not find %s in schema, skipping it\\n", relname.c_str());
      continue;
    }
''')],
  'an observations file of which one line names a relation that the schema does not have, as after damage to the name',
  'the line is left out, and the program learns from the rest and reports success',
  sh=r'''
printf 'R ~ bernoulli(D)\nS ~ bernoulli(D)\n' > m.schema
printf '1,R,a\n0,R,b\n1,S,a\n0,S,b\n' > m.obs
"$HIRM" --iters 2 m > out.txt
printf '1,R,a\n0,R,b\n1,S,a\n0,T,b\n' > m.obs
if timeout 60 "$HIRM" --iters 2 m > out.txt 2>&1; then echo "a line of an unknown relation was accepted"; exit 1; fi
echo ok
''')

P('p27-stray-characters-skipped', 'P27',
  [('cxx/util_parse.cc', '''      printf("Unexpected character %c while passing line %s\\n", c, line.c_str());
      return false;
''', '''      printf("Skipping character %c while parsing line %s\\n", c, line.c_str());
      continue;
''')],
  'a schema of which a byte has become one that no token can hold',
  'the damaged name is read as another name or as two, and the program goes on with a schema that the file does not hold',
  sh=r'''
printf 'Rain ~ bernoulli(D)\n' > m.schema
printf '1,Rain,a\n0,Rain,b\n' > m.obs
"$HIRM" --iters 2 m > out.txt
printf 'Rain ~ \001bernoulli(D)\n' > m.schema
if timeout 60 "$HIRM" --iters 2 m > out.txt 2>&1; then echo "a damaged schema was accepted"; exit 1; fi
printf 'Rain ~ bernoulli(\377D)\n' > m.schema
if timeout 60 "$HIRM" --iters 2 m > out.txt 2>&1; then echo "a damaged schema was accepted"; exit 1; fi
echo ok
''')

P('p27-last-from-wins', 'P27',
  [('cxx/pclean/io.cc', '''      if (!query->record_class.empty()) {
        printf("Expected exactly one `from` clause in query.\\n");
        return false;
      }
''', '')],
  'a query with two from lines that name different classes',
  'the first from line is ignored without a word',
  cc=r'''
#include "pclean/io.hh"
int main() {
  std::stringstream a("class City\n  s ~ bool\n\nclass Rec\n  t ~ bool\n\nobserve\n  t as T\n  from Rec\n");
  PCleanSchema s;
  CHECK(read_schema(a, &s), "sound schema");
  std::stringstream b("class City\n  s ~ bool\n\nclass Rec\n  t ~ bool\n\nobserve\n  t as T\n  from City\n  from Rec\n");
  PCleanSchema s2;
  CHECK(!read_schema(b, &s2), "two from clauses were accepted, as from %s", s2.query.record_class.c_str());
}
''')
