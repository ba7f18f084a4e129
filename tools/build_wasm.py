#!/usr/bin/env python3
"""Builds harness/wasm for wasm32-unknown-unknown, offline.

No prebuilt wasm32 standard library is installed, so it is compiled from rust-src
(-Zbuild-std).  Cargo cannot mix rust-src's vendored crates with the crates.io cache, so a
directory source is assembled from both under target/wasm-vendor."""
import glob, hashlib, json, os, re, subprocess, sys, tarfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(H, "harness", "wasm")
VENDOR = os.path.join(H, "target", "wasm-vendor")
OUT = os.path.join(H, "target", "wasm", "wasm32-unknown-unknown", "release", "zkwasm.wasm")


def prepare():
    os.makedirs(VENDOR, exist_ok=True)
    root = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    for d in glob.glob(os.path.join(root, "lib/rustlib/src/rust/library/vendor/*")):
        link = os.path.join(VENDOR, os.path.basename(d))
        if not os.path.lexists(link):
            os.symlink(d, link)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    lock = open(os.path.join(CRATE, "Cargo.lock")).read()
    for m in re.finditer(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "[^"]+"\nchecksum = "([^"]+)"', lock):
        nv = "%s-%s" % (m.group(1), m.group(2))
        dst = os.path.join(VENDOR, nv)
        if os.path.exists(os.path.join(dst, ".cargo-checksum.json")):
            continue
        crate = glob.glob(os.path.join(home, "registry/cache/*/%s.crate" % nv))[0]
        with tarfile.open(crate) as t:
            t.extractall(VENDOR, filter="data")
        json.dump({"files": {}, "package": m.group(3)}, open(os.path.join(dst, ".cargo-checksum.json"), "w"))


def build():
    prepare()
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = os.path.join(H, "target", "wasm")
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--locked", "--quiet", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown",
                        "--config", 'source.crates-io.replace-with="merged"', "--config", 'source.merged.directory="%s"' % VENDOR],
                       cwd=CRATE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


if __name__ == "__main__":
    rc, out = build()
    if rc:
        sys.stderr.write(out)
    sys.exit(rc)
