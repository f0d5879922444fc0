# Sourced by run.sh and setup.sh, with the working directory at /verif.
REPO=${VERIF_REPO:-/repo}
export REPO
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-buildvcs=false
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}

# build OUT PKG [flags]: the repository has no go.mod, so freetype.mod is laid
# over it; -modfile points the replacement at $REPO.
build() {
	local out=$1 pkg=$2 d
	shift 2
	d=$(mktemp -d "${TMPDIR:-/tmp}/verifb.XXXXXX") || return 1
	sed "s#=> /repo#=> $REPO#" go.mod >"$d/go.mod"
	cp go.sum "$d/go.sum"
	printf '{"Replace":{"%s/go.mod":"%s/freetype.mod"}}' "$REPO" "$PWD" >"$d/overlay.json"
	CGO_ENABLED=${CGO_ENABLED:-0} go build -modfile="$d/go.mod" -overlay="${OVERLAY:-$d/overlay.json}" -o "$out" "$@" "$pkg"
	local rc=$?
	rm -rf "$d"
	return $rc
}
