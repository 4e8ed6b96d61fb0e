#!/bin/bash
# Stand-in for clang-tidy: complains about each line containing TODO(check).
if [ "$1" = "--version" ]; then
  echo "LLVM version ${FAKE_VERSION}"; exit 0
fi
echo "$1" >> "$FAKE_LOG"
[ -n "${FAKE_SLEEP:-}" ] && sleep "$FAKE_SLEEP"
n=0
while IFS= read -r line; do
  n=$((n+1))
  case "$line" in
    *TODO\(*) c="${line#*TODO(}"; c="${c%%)*}"
      echo "$PWD/$1:$n:1: warning: tidy ${FAKE_VERSION} says so [$c]" ;;
    *RAW\(*) c="${line#*RAW(}"; echo "${c%%)*}" ;;
  esac
done < "$1"
exit 0
