#!/bin/bash
# Builds the model checker against /repo's current working tree.
cd "$(dirname "$0")/mc" || exit 2
export CARGO_TARGET_DIR="${MC_TARGET:-$(cd .. && pwd)/target}"
export RUSTFLAGS=-Awarnings
export CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.mc-lock"
flock 9
# cargo goes by modification times; go by content instead
hash=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$hash" != "$(cat "$CARGO_TARGET_DIR/.mc-hash" 2>/dev/null)" ]; then
	rm -f "$CARGO_TARGET_DIR/.mc-hash"
	cargo clean --release --offline -p bm -p bm-le -p bm-le-derive >/dev/null 2>&1
fi
if ! cargo build --release --offline >"$CARGO_TARGET_DIR/.mc-log" 2>&1; then
	cat "$CARGO_TARGET_DIR/.mc-log" >&2
	echo "the model checker does not build against /repo" >&2
	exit 2
fi
echo "$hash" > "$CARGO_TARGET_DIR/.mc-hash"
