#!/bin/bash
# check.sh <property> [quick|thorough]: build the simulator from /repo's working tree
# and explore the property.  check.sh --setup only builds.  See DESIGN.md.
cd "$(dirname "$0")" || exit 2
export SIM_ROOT="$PWD"
. sim/env.sh
G="$SIM_ROOT/target/gen"
put() { # <from> <to>: copy when different, so that nothing is rebuilt needlessly
  cmp -s "$1" "$2" || { mkdir -p "$(dirname "$2")" && cp "$1" "$2"; }
}
# A binary's main function becomes one the simulator can call, and `exit` ends the
# simulated process; nothing else changes.
binary() { # <crate> <source directory> <manifest of the library>
  local f n="$G/.new" seen=""
  mkdir -p "$G/$1"
  while read -r f; do
    sed -E 's/^(pub )?(async )?fn main\(/pub \2fn main(/
      s/(::)?(\bstd::)?\bprocess::exit\(/::simcore::exit(/g' "$2/$f" >"$n" || exit 2
    put "$n" "$G/$1/src/$f"
    seen="$seen $f"
  done < <(cd "$2" && find . -type f -name '*.rs' | sed 's,^\./,,')
  (cd "$G/$1/src" && find . -type f | sed 's,^\./,,') | while read -r f; do
    case " $seen " in *" $f "*) ;; *) rm -f "$G/$1/src/$f" ;; esac
  done
  put "$3" "$G/$1/Cargo.toml"
}
mkdir -p "$G" "$SIM_ROOT/evidence"
binary server /repo/server/src sim/gen/server.toml
binary cli /repo/cli/bin/src sim/gen/cli.toml
log="$SIM_ROOT/target/build.log"
if ! (cd sim && cargo build --offline -p hopsim) >"$log" 2>&1; then
  cat "$log" >&2
  exit 2
fi
[ "$1" = --setup ] && exit 0
exec "$SIM_ROOT/target/debug/hopsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
