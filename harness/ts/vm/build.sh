#!/bin/sh
# Rebuilds vm.wasm and vm_big.wasm, which has room for more signals and wires (committed; only needed when vm.c changes).
cd "$(dirname "$0")" && clang --target=wasm32 -O2 -nostdlib -fno-builtin -ffreestanding -Wl,--no-entry -Wl,--strip-all -o vm.wasm vm.c && clang --target=wasm32 -O2 -nostdlib -fno-builtin -ffreestanding -DMAXS=1700000 -DDESC=300000 -Wl,--no-entry -Wl,--strip-all -o vm_big.wasm vm.c && ls -la vm.wasm vm_big.wasm
