# Sourced: build functions. Everything is compiled offline from /repo's working tree, outside /repo.
REPO=${REPO:-/repo}
build_in() { # dir, cargo arguments
    local log dir="$1"; shift; log=$(mktemp)
    if ! (cd "$dir" && cargo build --release --offline "$@") >"$log" 2>&1; then
        tail -60 "$log" >&2; rm -f "$log"; echo "build failed" >&2; return 1
    fi
    rm -f "$log"
}
# the code under test is always recompiled, whatever the time stamps in /repo say
build_lib() {
    rm -rf "$VERIF_DIR"/mc/target/release/.fingerprint/sc-*
    build_in "$VERIF_DIR/mc" -p libcheck
}
build_app() {
    rm -rf "$VERIF_DIR"/app/target/release/.fingerprint/sc-* "$VERIF_DIR"/app/target/release/.fingerprint/scfull-* "$VERIF_DIR"/app/target/release/.fingerprint/app-* "$VERIF_DIR"/app/target/release/.fingerprint/appfull-*
    python3 "$VERIF_DIR/app/gen.py" "$REPO" && build_in "$VERIF_DIR/app" -p appcheck
}
# the program itself, for replaying invocations on it
build_real() {
    rm -rf "$VERIF_DIR"/app/target/real/release/.fingerprint/sc-*
    build_in "$VERIF_DIR" --bin sc --manifest-path "$REPO/Cargo.toml" --target-dir "$VERIF_DIR/app/target/real" \
        && export SC_BIN="$VERIF_DIR/app/target/real/release/sc"
}
