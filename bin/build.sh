# sourced by bin/check and bin/replay: build_all VERIF WORK PROPERTY
build_all() {
	local here=$1 work=$2 prop=$3
	local log=$work/build.log
	cp -a "$here/mc" "$work/src" || return 1
	echo "built from /repo $(git -C /repo rev-parse --short HEAD 2>/dev/null)$(git -C /repo diff --quiet HEAD 2>/dev/null || echo ' with changes')" >"$work/note"
	(
		cd "$work/src" || exit 1
		go run ./cmd/gentable -repo /repo -out "$work/src/table_gen.go" || exit 1
		go build -tags gen -o "$work/mc" . || exit 1
	) >"$log" 2>&1 || return 1
	case $prop in
	C05 | C07)
		(
			cd "$work/src" || exit 1
			mkdir -p "$work/instr"
			{ go run ./cmd/instrument -repo /repo -out "$work/instr" &&
				go build -tags gen -overlay "$work/instr/overlay.json" -ldflags "-X main.instrBuild=yes" -o "$work/mc-instr" .; } ||
				{ rm -f "$work/mc-instr"; echo "; the instrumented build failed" >>"$work/note"; }
		) >>"$log" 2>&1
		;;
	esac
	case $prop in
	C07)
		(cd "$work/src" && CGO_ENABLED=1 go build -race -tags gen -ldflags "-X main.raceBuild=yes" -o "$work/mc-race" .) >>"$log" 2>&1 ||
			{ rm -f "$work/mc-race"; echo "; the race detector build failed" >>"$work/note"; }
		;;
	esac
	return 0
}
