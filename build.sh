# Sourced: vbuild PROPERTY builds the harness into $work/vh from /repo's working tree.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=readonly
work=$(mktemp -d /tmp/verif-build.XXXXXX) || return 3
repo=${VERIF_REPO:-/repo}

# one_build COUNT OUT [flags]: with COUNT of our keys trusted for frosting
one_build() {
  local count=$1 out=$2 ov=() mod=()
  shift 2
  if [ "$count" != 0 ]; then
    mkdir -p "$work/ov$count"
    local f
    f=$(python3 "$VERIF_DIR/overlay.py" "$repo" "$work/ov$count" "$count") || return 3
    [ -n "$f" ] || return 4
    ov=(-overlay "$f")
  fi
  case " $* " in *" c30 "*)
    mkdir -p "$work/ovx"
    ov=(-overlay "$(python3 "$VERIF_DIR/overlay.py" "$repo" "$work/ovx" 0 "$VERIF_DIR/harness/zzverif/export.go.txt")") || return 3 ;;
  esac
  if [ "$repo" != /repo ]; then
    sed "s#=> /repo#=> $repo#" "$VERIF_DIR/harness/go.mod" > "$work/go.mod"
    cp "$VERIF_DIR/harness/go.sum" "$work/go.sum"
    mod=(-modfile "$work/go.mod")
  fi
  (cd "$VERIF_DIR/harness" && go build "${ov[@]}" "${mod[@]}" "$@" -ldflags "-X main.frostKeyCount=$count" -o "$out" .)
}

vbuild() {
  local flags=()
  case $1 in
    C22) flags=(-race) ;;
    C30) one_build 0 "$work/vh" -tags c30; return ;;
  esac
  one_build 2 "$work/vh" "${flags[@]}"
  local rc=$?
  if [ $rc = 4 ]; then # the built-in key was not found: frosting is checked with what nobody can sign
    one_build 0 "$work/vh" "${flags[@]}" || return 3
  elif [ $rc != 0 ]; then
    return 3
  elif ! "$work/vh" frostprobe; then
    # maybe only one key is possible
    if one_build 1 "$work/vh1" "${flags[@]}" && "$work/vh1" frostprobe; then mv "$work/vh1" "$work/vh"; fi
  fi
}
