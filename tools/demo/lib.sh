# common part of the demonstrations: run from the repository's root after a build
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 9
trap 'rm -rf "$W"' EXIT
gcc -w -O1 -Iinclude -Isrc/vm -Isrc/compiler "$H/drv.c" src/vm/*.c src/compiler/*.c -lm -o "$W/drv" || exit 9
fails=0
# expect SCHEMA WANT ARGS...
expect() { s=$1; want=$2; shift 2; printf '%s\n' "$s" > "$W/s.cnd"; got=$("$W/drv" "$W/s.cnd" "$@" 2>/dev/null | tail -n 1)
  if [ "$got" != "$want" ]; then echo "schema: $s"; echo "args: $*"; echo "want: $want"; echo "got:  $got"; fails=1; fi; }
