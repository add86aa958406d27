#!/bin/bash
# check.sh ID [quick|thorough]   decides property ID for the working tree of /repo
# check.sh ID replay FILE        runs one recorded case again
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/.build" "$here/evidence"
bin="$here/.build/harness.$id"
flags=()
case " C11 " in *" $id "*) flags=(-race) ;; esac
if ! (cd "$here/harness" && go build "${flags[@]}" -o "$bin" .); then
	echo "check.sh: the harness does not build with this tree" >&2
	exit 2
fi
if [ "$id" = C19 ]; then
	export VERIF_CLI="$here/.build/parse.$id"
	if ! (cd "$here/harness" && go build -o "$VERIF_CLI" github.com/lyraproj/puppet-parser/parse); then
		echo "check.sh: the command does not build with this tree" >&2
		exit 2
	fi
fi
if [ "$tier" = replay ]; then
	exec "$bin" -prop "$id" -replay "$3"
fi
exec "$bin" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "$here/evidence" -known "$here/known-findings.txt"
