# Tool chain settings shared by every check. Caches stay inside this folder.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod CGO_ENABLED=0 GOPROXY=off GOSUMDB=off GOTELEMETRY=off
verif_dir=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$verif_dir/.work/gocache" "$verif_dir/.work/tmp" || return 2
export GOCACHE="$verif_dir/.work/gocache" TMPDIR="$verif_dir/.work/tmp"
export CCACHE_DISABLE=1
