#!/bin/sh
# Nothing is kept between setup and the checks: each check builds what it needs
# from /repo's working tree.  This only makes sure the tools are there.
set -e
cd "$(dirname "$0")"
for t in java cmake ninja gcc clang python3 qemu-aarch64 qemu-arm qemu-s390x qemu-x86_64 aarch64-linux-gnu-gcc arm-linux-gnueabihf-gcc s390x-linux-gnu-gcc i686-linux-gnu-gcc; do
	command -v "$t" >/dev/null || { echo "missing: $t"; exit 1; }
done
ls /opt/veriftools/tla/tla2tools.jar >/dev/null
mkdir -p evidence
echo ok
