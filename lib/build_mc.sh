# build_mc.sh REPO SRC OUT [DEFS...]: compile a concurrency harness against lib/mcrt.cpp
set -e
repo=$1; src=$2; out=$3; shift 3
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=c++20 -O2 -w -fno-threadsafe-statics -I"$here" -c "$here/mcrt.cpp" -o "$t/mcrt.o" &
p=$!
g++ -std=c++20 -O2 -w -fno-omit-frame-pointer -fsanitize=thread -include "$here/mcsem.hpp" -I"$repo/include" -I"$here" -DREPO="\"$repo\"" "$@" -c "$src" -o "$t/h.o"
objcopy --redefine-sym memcpy=mcrt_memcpy --redefine-sym memmove=mcrt_memmove --redefine-sym memset=mcrt_memset --redefine-sym memcmp=mcrt_memcmp --redefine-sym syscall=mcrt_syscall "$t/h.o"
wait $p
g++ -o "$out" "$t/h.o" "$t/mcrt.o" -rdynamic -ldl -lpthread
