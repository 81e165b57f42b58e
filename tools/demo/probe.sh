#!/bin/bash
# Builds probe.cpp (beside this script) with the library of the working tree (cwd /repo) and runs it; its verdict is the exit code.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
[ -f "$D/flags" ] && . "$D/flags"
mkdir -p "$T/inc/cppsas7bdat"
printf '#ifndef V_\n#define V_\n#include <string>\n#define CPPSAS7BDAT_VERSION "1.0.1"\nnamespace cppsas7bdat { std::string getVersion(); }\n#endif\n' > "$T/inc/cppsas7bdat/version.hpp"
FLAGS="-std=c++20 -O1 -DNDEBUG -DBOOST_DATE_TIME_NO_LIB -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DJSON_HAS_THREE_WAY_COMPARISON=0 -DFMT_DEPRECATED_OSTREAM -DFMT_CONSTEVAL= -I$T/inc -Iinclude -Isrc $EXTRA"
OBJS=""
for f in src/*.cpp; do
  case $f in src/version.cpp) continue;; esac
  o="$T/$(basename $f .cpp).o"; OBJS="$OBJS $o"
  g++ $FLAGS -c $f -o $o &
done
g++ $FLAGS -c "$D/probe.cpp" -o "$T/probe.o" &
wait
g++ $EXTRA -o "$T/probe" "$T/probe.o" $OBJS -lspdlog -lfmt -lboost_date_time -pthread || { echo "demo: build failed"; exit 1; }
cd "$T" && timeout 120 "$T/probe" "$D"
rc=$?
[ $rc = 0 ] || echo "demo: probe ended with $rc"
exit $rc
