#!/bin/bash
# Builds the simulated program from /repo's working tree, and the orchestrator. usage: build.sh OUTDIR
set -e
export LC_ALL=C.UTF-8
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:?}
REPO=${REPO:-/repo}
mkdir -p "$OUT/o"
CQ=/opt/vp/include/concurrentqueue
[ -d $CQ ] || CQ=/usr/include/concurrentqueue/moodycamel
# The queue's Block::set_empty and set_many_empty count finished elements with a release-only increment and read other
# threads' slots when the count is full: a data race on paper (see known-findings). It is not this repository's code; the
# simulated program gets a copy of the header in which the two increments also acquire, so that races of GRoot itself
# remain visible behind it.
mkdir -p "$OUT/inc/concurrentqueue" "$OUT/inc/x"
sed -E 's/(elementsCompletelyDequeued\.fetch_add\([a-z0-9]+, std::)memory_order_release\)/\1memory_order_acq_rel)/' \
    "$CQ/concurrentqueue.h" > "$OUT/inc/concurrentqueue/concurrentqueue.h.new"
cmp -s "$OUT/inc/concurrentqueue/concurrentqueue.h.new" "$OUT/inc/concurrentqueue/concurrentqueue.h" || \
    cp "$OUT/inc/concurrentqueue/concurrentqueue.h.new" "$OUT/inc/concurrentqueue/concurrentqueue.h"
if cmp -s "$OUT/inc/concurrentqueue/concurrentqueue.h" "$CQ/concurrentqueue.h"; then rm -f "$OUT/queue-patched"; else touch "$OUT/queue-patched"; fi
DEFS="-DBOOST_BIND_GLOBAL_PLACEHOLDERS -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB"
: > "$OUT/jobs"
# one compilation: instrument, then route the memory functions and main through the simulator
cat > "$OUT/cc1.sh" <<EOS
#!/bin/bash
set -e
src=\$1; obj=\$2
compile() {
    g++ -std=c++17 -O1 -g1 -DNDEBUG -w "\$@" -fsanitize=thread -fno-builtin-memcmp $DEFS -I$OUT/inc/x -I$OUT/inc -c "\$src" -o "\$obj.tmp"
}
# without the knob where it does not fit
compile -include $HERE/hook.h '-DGROOT_SIM_CHILD_MAP_THRESHOLD=sim_child_map_threshold()' || compile
objcopy --redefine-sym main=groot_main --redefine-sym memcpy=sim_memcpy --redefine-sym memmove=sim_memmove \\
    --redefine-sym memset=sim_memset --redefine-sym memcmp=sim_memcmp \\
    --redefine-sym _ZN6spdlog7details11thread_poolC1EmmSt8functionIFvvEES4_=sim_log_pool "\$obj.tmp" "\$obj"
rm -f "\$obj.tmp"
EOS
chmod +x "$OUT/cc1.sh"
# An object is compiled again if anything it may include, or the way it is compiled, has changed.
HDRS=$(cat "$REPO"/src/*.h "$OUT/inc/concurrentqueue/concurrentqueue.h" "$OUT/cc1.sh" "$HERE/hook.h" | sha256sum)
MINE=$(cat "$HERE/shared.h" "$HERE"/rt/*.h "$HERE"/host/*.h "$HERE/build.sh" | sha256sum)
# job OBJECT KEY-OF-INCLUDES SOURCE COMMAND
job() {
    local key
    key=$(echo "$2 $3 $4 $(sha256sum < "$3")" | sha256sum)
    [ -e "$1" ] && [ "$(cat "$1.key" 2> /dev/null)" = "$key" ] && return
    rm -f "$1.key"
    echo "$4 && echo '$key' > $1.key" >> "$OUT/jobs"
}
OBJS=""
# the biggest first
for f in $(ls -S "$REPO"/src/*.cpp) "$REPO"/bin/groot.cpp; do
    o="$OUT/o/$(basename "$f" .cpp).o"
    OBJS="$OBJS $o"
    job "$o" "$HDRS" "$f" "$OUT/cc1.sh $f $o"
done
RT=""
for f in rt tsan io mem; do
    RT="$RT $OUT/o/rt_$f.o"
    job "$OUT/o/rt_$f.o" "$MINE" "$HERE/rt/$f.cpp" "g++ -std=c++17 -O2 -g1 -fno-builtin-malloc -Wall -Wno-unused-result -c $HERE/rt/$f.cpp -o $OUT/o/rt_$f.o"
done
HO=""
for f in "$HERE"/host/*.cpp; do
    [ -e "$f" ] || continue
    o="$OUT/o/host_$(basename "$f" .cpp).o"
    HO="$HO $o"
    job "$o" "$MINE" "$f" "g++ -std=c++17 -O1 -g1 -Wall -c $f -o $o"
done
if ! xargs -d '\n' -P "${JOBS:-8}" -I{} sh -c '{} || exit 255' < "$OUT/jobs"; then
    echo "build failed" >&2
    exit 3
fi
g++ -no-pie -rdynamic -o "$OUT/simgroot" $OBJS $RT -lboost_filesystem -lboost_regex -lspdlog -ldocopt -lfmt -lpthread -ldl
[ -z "$HO" ] || g++ -o "$OUT/simhost" $HO -lpthread
