# Sets GOVC to the verifier, building it if it is not there.
GOVC=$V/govc/govc
if [ ! -x "$GOVC" ] || [ -n "$(find "$V/govc" -name "*.go" -newer "$GOVC" -print -quit)" ]; then
	(
		cd "$V/govc" || exit 1
		unset GOROOT
		export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
		go build -o govc.$$ . && mv govc.$$ govc
	) || {
		GOVC=$(mktemp -d)/govc
		(cd "$V/govc" && unset GOROOT && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "$GOVC" .)
	}
fi
