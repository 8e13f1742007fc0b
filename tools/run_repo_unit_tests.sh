cd /tmp/rt; R=${R:-/repo}
build(){ n=$(basename $1 .cpp); g++-14 -std=c++23 -w -O0 -DNDEBUG -I inc -I/verif/shims -I$R/src/core/include -I$R/src/serialiser/include -I$R/src/disruptor/include -I$R/src/majordomo/include -I$R/src/client/include -I$R/src/services/include -I/repo/_build/_cmrc/include -I$R/3rd_party/kainjow -I$R/3rd_party $1 -o $n -lCatch2Main -lCatch2 -lpthread >$n.log 2>&1 && (timeout 120 ./$n > $n.out 2>&1; echo "$n rc=$? $(tail -3 $n.out | tr '\n' ' ')") || echo "$n BUILD FAIL $(grep -m1 error $n.log)"; }
export -f build; export R
printf '%s\n' ${T:-$R/src/serialiser/test/I*_tests.cpp $R/src/serialiser/test/M*_tests.cpp $R/src/serialiser/test/Utils_tests.cpp $R/src/serialiser/test/queryserialiser_tests.cpp $R/src/core/test/*_tests.cpp $R/src/disruptor/test/*_tests.cpp $R/src/majordomo/test/rbac_tests.cpp $R/src/majordomo/test/subscriptionmatcher_tests.cpp} | xargs -P 8 -I{} bash -c 'build {}'
