# Sourced by demo.sh, in the directory of the repository.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export LC_ALL=C.UTF-8 HOME="$T"

die() { echo "setup problem: $*" >&2; exit 77; }
fail() { echo "FAIL: $*" >&2; exit 1; }

# Builds all of bant (and $1, a demo with its own main(), if given).
LIBS="-labsl_time -labsl_time_zone -labsl_civil_time -labsl_hash -labsl_city
 -labsl_low_level_hash -labsl_raw_hash_set -labsl_hashtablez_sampler
 -labsl_exponential_biased -labsl_str_format_internal -labsl_strings
 -labsl_strings_internal -labsl_int128 -labsl_synchronization
 -labsl_graphcycles_internal -labsl_stacktrace -labsl_symbolize
 -labsl_debugging_internal -labsl_demangle_internal -labsl_malloc_internal
 -labsl_throw_delegate -labsl_bad_optional_access -labsl_bad_variant_access
 -labsl_base -labsl_spinlock_wait -labsl_raw_logging_internal
 -labsl_log_severity -l:libre2.so.10 -lpthread"
build_bant() {
  local main="${1:-}" f
  FLAGS="-std=c++23 -fno-exceptions -fno-rtti -O0 -w ${SAN:-} -I$HERE/shim -I$REPO"
  for f in $(find bant -name '*.cc' | grep -v -e _test.cc -e _testutil.cc); do
    [ -n "$main" ] && [ "$f" = bant/bant.cc ] && continue
    echo "$REPO/$f"
  done > "$T/srcs"
  echo "$HERE/shim/re2_shim.cc" >> "$T/srcs"
  [ -n "$main" ] && echo "$HERE/$main" >> "$T/srcs"
  mkdir -p "$T/obj"
  xargs -P 8 -I{} sh -c \
    'g++ '"$FLAGS"' -c "{}" -o "'"$T"'/obj/$(echo "{}" | tr "/" "_").o"' \
    < "$T/srcs" || die "compile"
  g++ ${SAN:-} "$T"/obj/*.o $LIBS -o "$T/bant" || die "link"
  BANT="$T/bant"
}

# A project for run-clang-tidy-cached, with a stand-in for clang-tidy
build_tidy() {
  g++ -std=c++17 -O1 -g -w ${SAN:-} scripts/run-clang-tidy-cached.cc \
    -o "$T/runtidy" -lpthread || die "compile"
  mkdir -p "$T/bin" "$T/proj/bant" "$T/cache"
  cp "$HERE/fake-clang-tidy.sh" "$T/bin/clang-tidy"
  chmod +x "$T/bin/clang-tidy"
  printf '#!/bin/sh\nexit 1\n' > "$T/bin/bazel"; chmod +x "$T/bin/bazel"
  export CLANG_TIDY="$T/bin/clang-tidy" CACHE_DIR="$T/cache"
  export PATH="$T/bin:$PATH" FAKE_LOG="$T/log" FAKE_VERSION=18.1.3
  cd "$T/proj"
  echo > MODULE.bazel; echo > .clang-tidy; echo '[]' > compile_commands.json
  touch -d '2020-01-01' MODULE.bazel compile_commands.json .clang-tidy
  : > "$FAKE_LOG"
}
