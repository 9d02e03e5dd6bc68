#!/bin/bash
# Runs demo.rs through the built minimize (cwd = the repository, already built). Everything is written below a scratch
# directory that is removed afterwards. Exit 0 iff the outcome is the one stated in the first lines of demo.rs:
#   // expect: ok 1 2 3      exit status 0 and exactly these values on standard output
#   // expect: fail REGEX    exit status 101 and a line on standard error that matches
#   // flags: --...          extra arguments
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2026-04-01 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 NO_COLOR=1
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib" MINIMIZE_BUILD_SYSROOT=off
m=$repo/tooling/target/debug/minimize
sr=/opt/vp/cache/minirust-sysroot
if [ ! -d "$sr/lib" ]; then
  sr=$t/sysroot; MINIRUST_SYSROOT=$sr MINIMIZE_BUILD_SYSROOT=only "$m" > "$t/srlog" 2>&1 || { tail -5 "$t/srlog"; echo "no sysroot"; exit 4; }
fi
MINIMIZE_BE_RUSTC=1 "$m" --sysroot="$sr" --crate-type lib --crate-name intrinsics --edition 2021 --emit=metadata -o "$t/libintrinsics.rmeta" "$repo/tooling/minimize/intrinsics/src/lib.rs" > "$t/log" 2>&1 || { tail -5 "$t/log"; echo "intrinsics do not build"; exit 4; }
want=$(sed -n '1s#^// expect: *##p' "$here/demo.rs"); flags=$(sed -n '2s#^// flags: *##p' "$here/demo.rs")
for k in 1 2 3 4 5 6 7 8; do # the random search for an address may give up; that says nothing
  timeout 100 "$m" --sysroot="$sr" --edition 2021 -Coverflow-checks=on -Awarnings --extern "intrinsics=$t/libintrinsics.rmeta" "$here/demo.rs" $flags > "$t/out" 2> "$t/err" < /dev/null; rc=$?
  grep -q 'Timeout! `pick` could not find' "$t/err" || break
done
got=$(tr '\n' ' ' < "$t/out" | sed 's/ *$//')
case "$want" in
  ok*) w=$(echo "${want#ok}" | sed 's/^ *//;s/ *$//'); [ $rc = 0 ] && [ "$got" = "$w" ] && exit 0 ;;
  fail*) [ $rc = 101 ] && grep -Eq -- "${want#fail }" "$t/err" && exit 0 ;;
esac
echo "expected: $want"; echo "got: exit $rc, printed: $got; $(grep -m3 -E 'panicked|error|UB|well-formed' "$t/err")"
exit 1
