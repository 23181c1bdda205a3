# sourced: sets the Go environment for a scratch GOPATH in $work; needs $root, $repo
export GO111MODULE=off GOPATH=$work/gopath GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off CGO_ENABLED=0
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH HOME=${HOME:-/root}
unset GOROOT GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GOAMD64 GOOS GOARCH
export TZ=Europe/Berlin
if mkdir -p "$root/.cache/gocache" 2>/dev/null && [ -w "$root/.cache/gocache" ]; then
	export GOCACHE=$root/.cache/gocache
else
	export GOCACHE=$work/gocache
fi
pkg=$GOPATH/src/gitlab.cs.fau.de/since/radolan

# copies the non-test Go files of the working tree
copy_repo() { # dest
	mkdir -p "$1"
	(cd "$repo" && find . -name .git -prune -o -name '*.go' ! -name '*_test.go' -print0 | tar --null -T - -cf -) | tar -xf - -C "$1"
}

build_all() {
	mkdir -p "$work/run" "$GOPATH/src"
	copy_repo "$pkg" || return 1
	cp -r "$root/src/verif" "$GOPATH/src/verif" || return 1
	(cd "$GOPATH/src/verif/check" && go build -o "$work/check" .) || return 1
	case "${1:-}" in
	C18|C19) (cd "$pkg/radolan2png" && go build -o "$work/radolan2png" .) || return 1 ;;
	C15) build_sched ;;
	esac
}

# the checker with scheduling points in the library, and one with the race detector
build_sched() {
	( cd "$GOPATH/src/verif/check" && CGO_ENABLED=1 go build -race -o "$work/check-race" . ) 2>"$work/race.log" &
	(
		export GOPATH=$work/gopath15
		p=$GOPATH/src/gitlab.cs.fau.de/since/radolan
		mkdir -p "$GOPATH/src" && copy_repo "$p" && cp -r "$root/src/verif" "$GOPATH/src/verif" &&
		(cd "$GOPATH/src/verif/instr" && go build -o "$work/instr" .) &&
		"$work/instr" "$p" "$p/radolan2png/vis" &&
		cd "$GOPATH/src/verif/check" && go build -o "$work/check15" .
	) 2>"$work/instr.log" || { echo "note: no instrumented build, scheduling points only at Reads" >&2; rm -f "$work/check15"; }
	wait
	[ -x "$work/check-race" ] || echo "note: no race detector build" >&2
	return 0
}
