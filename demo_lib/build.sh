# usage: build.sh DEMO.cc OUT   (cwd: /repo; mini VAL beside this file)
H="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
set -e
O="$(mktemp -d)"
F="-std=c++17 -O1 -g -I/repo/include -I/repo/src -I$H -isystem /usr/include/eigen3 -DDOCTEST_CONFIG_DISABLE -DNDEBUG"
for s in src/action src/axiom src/derived_predicate src/formula src/normal_form src/object src/pddl src/predicate src/proposition src/state src/planning/planner src/utils/parameter_generator; do
  g++ $F -c /repo/$s.cc -o $O/$(basename $s).o &
done
g++ $F -c $H/mini_val.cc -o $O/mini_val.o &
g++ $F -c "$1" -o $O/demo_main.o &
wait
g++ $O/*.o -o "$2"
find "$O" -name '*.o' -delete; rmdir "$O"
