#!/bin/bash
# build1.sh OUT src...   (quick manual builds)
set -e
OUT=$1; shift
W="-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=aligned_alloc,--wrap=posix_memalign"
mkdir -p /tmp/b
g++ -std=c++17 -O2 -g -fno-builtin -fcf-protection=none -no-pie -fno-pie -Wall -Wno-unused -I/verif/dsim -c /verif/dsim/rt.cpp -o /tmp/b/rt.o
g++ -std=c++17 -O1 -g -fsanitize=thread -Wno-tsan -no-pie -fno-pie $DEFS -I/verif/dsim -I/repo/src -c "$@" -o /tmp/b/x.o
g++ -no-pie -Wl,-z,now $W /tmp/b/x.o /tmp/b/rt.o -o $OUT -lpthread -ldl
