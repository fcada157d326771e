#!/bin/bash
# mkseed.sh ID: (re)creates the demonstration kit and demo.sh of /verif/seeded/ID (demo.py, patch.diff and meta.json are written by hand)
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"; d="$V/seeded/$1"; mkdir -p "$d/kit/src"
cp "$V/harness/Cargo.toml" "$V/harness/Cargo.lock" "$V/harness/build.sh" "$d/kit/"; cp "$V"/harness/src/*.rs "$d/kit/src/"
for f in fc wire sut rec peer_req drive peer_rsp recq driveq; do [ -e "$V/mbt/$f.py" ] && cp "$V/mbt/$f.py" "$d/kit/"; done
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Drives the real library (built from the current directory's sources, /repo) through one history and checks what it does.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp -r "$d/kit" "$t/kit"
bash "$t/kit/build.sh" "$t/build" || exit 3
VHARNESS="$t/build/debug/vharness" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$t/kit" python3 "$d/demo.py"
D
chmod +x "$d/demo.sh"
