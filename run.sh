#!/bin/bash
# run.sh <property> [thorough]   build the harness from /repo's working tree and decide one property.
# run.sh --setup      build everything once.
# run.sh --replay FILE  re-execute a recorded violation.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Other: error of the check.
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export REPO="${REPO:-/repo}"
export HOME="${HOME:-/root}"
if [ -d /opt/veriftools/go1.27.3 ]; then export GOROOT=/opt/veriftools/go1.27.3; fi
export PATH="${GOROOT:+$GOROOT/bin:}/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off CGO_ENABLED=1
unset GOOS GOARCH GODEBUG GORACE GOMAXPROCS GOTRACEBACK GOEXPERIMENT 2>/dev/null
export GORACE="exitcode=0 halt_on_error=0 atexit_sleep_ms=0"
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"
export VERIF_TIER VERIF_SEED
mkdir -p "$VERIF_DIR/out" "$VERIF_DIR/evidence"

build() { # build <binary>
	local out="$VERIF_DIR/out/bin"
	mkdir -p "$out" || return 1
	cd "$VERIF_DIR/harness" || return 1
	case "$1" in
	vmc | vmcrace) # the constants of the code, which choose inputs
		go run ./cmd/mklit "$REPO" "$VERIF_DIR/out/literals.$$" && mv "$VERIF_DIR/out/literals.$$" "$VERIF_DIR/out/literals.json" || return 1
		;;
	esac
	case "$1" in
	vmc) go build -o "$out/vmc" ./cmd/vmc ;;
	vmcrace)
		for how in "" nochan; do # should the points before channel operations not compile, go without
			go run ./cmd/mkoverlay "$REPO" "$VERIF_DIR/out/overlay" $how || return 1
			go build -race -gcflags=verif.local/h/ref=-race=false -gcflags=verif.local/h/core=-race=false -gcflags=verif.local/h/sched=-race=false -overlay "$VERIF_DIR/out/overlay/overlay.json" -o "$out/vmcrace" ./cmd/vmcrace && return 0
		done
		return 1
		;;
	dukptcli) (cd "$REPO" && go build -o "$out/dukptcli" ./cmd/dukptcli) ;;
	serverdelay)
		go run ./cmd/mkdelay "$REPO" "$VERIF_DIR/out/delay" &&
			(cd "$REPO" && go build -overlay "$VERIF_DIR/out/delay/overlay.json" -o "$out/dukptserverdelay" ./cmd/server)
		;;
	server) (cd "$REPO" && go build -o "$out/dukptserver" ./cmd/server) ;;
	esac
}

need() {
	case "$1" in
	C18 | C23 | C29 | C30) echo vmcrace ;;
	C20) echo vmc dukptcli ;;
	C27) echo vmc server serverdelay ;;
	*) echo vmc ;;
	esac
}

case "${1:-}" in
--setup)
	for b in vmc vmcrace dukptcli server serverdelay; do build $b || exit 2; done
	exit 0
	;;
--replay)
	id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
	f=$(readlink -f "$2")
	;;
C[0-9][0-9])
	id=$1
	if [ -n "${2:-}" ]; then export VERIF_TIER=$2; fi
	;;
*)
	echo "usage: run.sh <property> | --setup | --replay FILE" >&2
	exit 2
	;;
esac

for b in $(need "$id"); do
	if ! build "$b" >"$VERIF_DIR/out/build-$id.log" 2>&1; then
		echo "build of $b failed:" >&2
		cat "$VERIF_DIR/out/build-$id.log" >&2
		exit 2
	fi
done
bin="$VERIF_DIR/out/bin/$(need "$id" | cut -d' ' -f1)"
cd "$VERIF_DIR" || exit 2
if [ "${1:-}" = --replay ]; then exec "$bin" replay "$f"; fi
exec "$bin" check "$id"
