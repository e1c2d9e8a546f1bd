#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS < demo.go: makes seeded/ID from the changes in /repo, and undoes them.
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
git -C /repo checkout -q -- .
cat > "$d/demo.go.txt"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# cwd is the repository; exits 0 if it behaves
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
cp "$here/demo.go.txt" "$w/main.go"
printf 'module github.com/adamcolton/parlex\n\ngo 1.23\n' > "$w/parlex.mod"
printf '{"Replace":{"%s/go.mod":"%s/parlex.mod"}}\n' "$repo" "$w" > "$w/overlay.json"
printf 'module demo\n\ngo 1.23\n\nrequire github.com/adamcolton/parlex v0.0.0\n\nreplace github.com/adamcolton/parlex => %s\n' "$repo" > "$w/go.mod"
export GO111MODULE=on GOFLAGS="-mod=mod -overlay=$w/overlay.json" GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GOENV=off CGO_ENABLED=0
cd "$w" && go build -o "$w/demo" . && timeout 120 "$w/demo"
D
chmod +x "$d/demo.sh"
