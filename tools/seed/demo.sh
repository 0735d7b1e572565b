#!/bin/bash
# Compiles demo.cpp against the built library (cwd: the repository, after its build) and runs it under wine.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX) || exit 2
flags=$(sed -n 's/^flags = //p' _build/build.ninja)
libs="-Wl,--stack,16777216 -lws2_32 -liphlpapi -lcrypt32 -lnetapi32 -lpsapi -ladvapi32 -lole32"
rc=2
if clang++ $flags -I"$PWD/CEX" -c "$here/demo.cpp" -o "$w/demo.o" &&
   x86_64-w64-mingw32-g++-posix -static -o "$w/demo.exe" "$w/demo.o" _build/libCEX.a $libs; then
  export WINEPREFIX="$w/wine" HOME="$w" WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
  unset DISPLAY
  mkdir -p "$w/wine" "$w/run"
  timeout 200 /usr/lib/wine/wine64 wineboot -i >/dev/null 2>&1
  (cd "$w/run" && timeout 60 /usr/lib/wine/wine64 ../demo.exe)
  rc=$?
  /usr/lib/wine/wineserver64 -k >/dev/null 2>&1
fi
rm -rf "$w"
exit $rc
