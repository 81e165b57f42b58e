#!/bin/bash
# Reads the files beside this script through the library built from the working tree (cwd /repo);
# each line of cases.txt is: expected-output-file data-file arguments
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/cppsas7bdat"
printf '#ifndef V_\n#define V_\n#include <string>\n#define CPPSAS7BDAT_VERSION "1.0.1"\nnamespace cppsas7bdat { std::string getVersion(); }\n#endif\n' > "$T/inc/cppsas7bdat/version.hpp"
FLAGS="-std=c++20 -O1 -DNDEBUG -DBOOST_DATE_TIME_NO_LIB -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DJSON_HAS_THREE_WAY_COMPARISON=0 -DFMT_DEPRECATED_OSTREAM -DFMT_CONSTEVAL= -I$T/inc -Iinclude -Isrc $EXTRA"
LIBS="-lspdlog -lfmt -lboost_date_time -pthread"
OBJS=""
for f in src/*.cpp; do
  case $f in src/version.cpp) continue;; esac
  o="$T/$(basename $f .cpp).o"; OBJS="$OBJS $o"
  g++ $FLAGS -c $f -o $o & 
done
g++ $FLAGS -c "$D/dump.cpp" -o "$T/dump.o" &
wait
g++ $EXTRA -o "$T/dump" "$T/dump.o" $OBJS $LIBS || { echo "demo: build failed"; exit 1; }
rc=0
while read -r expected data args; do
  [ -n "$expected" ] || continue
  timeout 60 "$T/dump" "$D/$data" $args >"$T/out" 2>/dev/null || { echo "demo: dump failed ($?)"; rc=1; }
  grep -a -v '^\[20' "$T/out" > "$T/out2"
  if ! cmp -s "$T/out2" "$D/$expected"; then
    echo "demo: output differs for $data $args"; diff -a "$D/$expected" "$T/out2" | head -20; rc=1
  fi
done < "$D/cases.txt"
exit $rc
