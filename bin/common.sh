# sourced by check and setup
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off
BUILD="$VERIF/.build"
mkdir -p "$BUILD/bin"

# build_vh VARIANT: the harness with the code of /repo linked in
build_vh() {
  local flag="" out="$BUILD/vh"
  [ -n "$1" ] && flag="-$1" out="$BUILD/vh-$1"
  (cd "$VERIF/harness" && go build $flag -o "$out" ./cmd/vh)
}

# build_prog NAME[-race]: a program of /repo
build_prog() {
  local name="$1" flag="" pkg="" extra=""
  case "$name" in *-race) flag="-race" ;; esac
  case "${name%-race}" in
    server) pkg=cmd/grpc/server ;;
    client) pkg=cmd/grpc/client ;;
    web) pkg=cmd/grpc/client/web; extra=web ;;
    interactive) pkg=cmd/grpc/client/interactive; extra=web ;;
    data) pkg=data ;;
    simul) pkg=simulations ;;
    simserver) pkg=simulations/multi/server ;;
    simclient) pkg=simulations/multi/client ;;
    *) echo "unknown program $name" >&2; return 1 ;;
  esac
  local overlay=()
  if [ -n "$extra" ]; then
    # the addresses of the servers are compiled into the web front-end and the
    # interactive client: use the configuration of the environment instead
    local dir=/repo/$pkg o="$BUILD/overlay-${name%-race}.json"
    printf '{"Replace": {"%s/zz_verif_config.go": "%s/harness/overlay/web_config.go"}}\n' "$dir" "$VERIF" > "$o"
    overlay=(-overlay "$o")
  fi
  local build=(go build $flag "${overlay[@]}" -o "$BUILD/bin/$name" "github.com/si-co/vpir-code/$pkg")
  if [ -n "$extra" ] && ! (cd "$VERIF/harness" && "${build[@]}") 2>/dev/null; then
    # the switch is called or declared otherwise
    python3 - "$dir" "$o" <<'EOF'
import glob, json, os, re, sys
dir, o = sys.argv[1:]
out = {}
for i, f in enumerate(sorted(glob.glob(dir + "/*.go"))):
    if f.endswith("_test.go"):
        continue
    s = open(f).read()
    n = re.sub(r"(?mi)^((?:var |const |\t)?\w*static\w*\s*(?:bool\s*)?=\s*)true\b", r"\1false", s)
    if n != s:
        out[f] = "%s.%d.go" % (o, i)
        open(out[f], "w").write(n)
json.dump({"Replace": out}, open(o, "w"))
EOF
  fi
  (cd "$VERIF/harness" && "${build[@]}")
}
