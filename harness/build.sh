#!/bin/bash
# build.sh OUTDIR: the harness from /repo's working tree, in OUTDIR.
set -eu
R=${REPO:-/repo}/preload-src; O=$(realpath -m "${1:?}"); H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
cd "$R"
get () { printf 'include Makefile\n.PHONY: vprint\nvprint:\n\t@echo %s$(%s)%s\n.DEFAULT_GOAL := vprint\n' "'" "$1" "'" | make -s --no-print-directory -f - ; }
SRCS=$(get SRCS | tr ' ' '\n' | grep '\.c$' | sort -u)
[ -n "$SRCS" ] || { echo "no sources" >&2; exit 2; }
eval "CF=($(get CFLAGS))"
# the default files lie in the run's own scratch directory
CF+=(-w -USYSCONFDIR -UPKGLOCALSTATEDIR -ULOGDIR '-DSYSCONFDIR="dflt/etc"' '-DPKGLOCALSTATEDIR="dflt/lib"' '-DLOGDIR="dflt/log"')
for d in $(find src -type d ! -path '*/tests*'); do CF+=("-I$R/$d"); done
SAN="-fsanitize=address -fno-omit-frame-pointer -g -O1 -U_FORTIFY_SOURCE"
OBJS=""
pids=()
for s in $SRCS; do
  o="$O/$(echo "$s" | tr '/' '_' | sed 's/\.c$/.o/')"
  D=""; grep -qE '^(int[[:space:]]+)?main *\(' "$s" && D="-Dmain=preload_main"
  gcc "${CF[@]}" -Dsyscall=h_syscall $SAN $D -c "$s" -o "$o" & pids+=($!)
  OBJS="$OBJS $o"
done
gcc "${CF[@]}" $SAN -c "$H/harness.c" -o "$O/harness.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
gcc $SAN -rdynamic -Wl,--wrap=preload_readahead -o "$O/h" "$O/harness.o" $OBJS $(pkg-config --libs glib-2.0) -lm -ldl
