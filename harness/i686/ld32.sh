#!/bin/bash
# Linker for i686-unknown-linux-gnu: the sandbox has the 32-bit run time (libc6-i386 in /usr/lib32) but no 32-bit
# development files, so the start code comes from start.s and the shared libraries are named directly.
here="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp --suffix=.o)" || exit 1
trap 'rm -f "$o"' EXIT
clang -m32 -c "$here/start.s" -o "$o" || exit 1
args=()
while [ $# -gt 0 ]; do
  case "$1" in
    -B*|-m32|-nodefaultlibs|-no-pie|-pie|-static-pie|-nostartfiles) ;;
    -Wl,*) IFS=, read -ra p <<<"${1#-Wl,}"; args+=("${p[@]}");;
    -lgcc_s|-lc|-lutil|-lrt|-lpthread|-lm|-ldl|-lgcc_eh|-lgcc) ;;
    *) args+=("$1");;
  esac
  shift
done
L=/usr/lib32
ld.lld -m elf_i386 --dynamic-linker $L/ld-linux.so.2 "$o" "${args[@]}" \
  $L/libgcc_s.so.1 $L/libc.so.6 $L/libm.so.6 $L/ld-linux.so.2 --allow-shlib-undefined
