# Sourced by the scripts of the checks. Needs $here, the directory of the checks.
export CARGO_NET_OFFLINE=true
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS

# Identifies the source of the code under test, whatever the file times say.
repo_stamp() {
    (cd /repo && cat Cargo.toml && find src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

# variant_env <plain|asan|tsan|msan|miri|miri32|miribe>: sets what builds and runs of that variant need.
variant_env() {
    export CARGO_TARGET_DIR="$here/harness/target-$1"
    export RUSTFLAGS=""
    cargo_cmd=(cargo)
    build_args=(build --release --offline --locked)
    zv="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/zv"
    local small=(--no-default-features --features slow -Zbuild-std)
    case "$1" in
    plain)
        export CARGO_TARGET_DIR="$here/harness/target"
        zv="$CARGO_TARGET_DIR/release/zv";;
    asan)
        RUSTFLAGS="-Zsanitizer=address"
        cargo_cmd+=(+nightly)
        build_args+=(--target x86_64-unknown-linux-gnu);;
    tsan)
        RUSTFLAGS="-Zsanitizer=thread"
        cargo_cmd+=(+nightly)
        build_args+=(--target x86_64-unknown-linux-gnu "${small[@]}");;
    msan)
        RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins"
        cargo_cmd+=(+nightly)
        build_args+=(--target x86_64-unknown-linux-gnu "${small[@]}");;
    miri)
        cargo_cmd+=(+nightly miri)
        build_args=(run --release --offline --locked --no-default-features --);;
    miri32)
        # Another word size
        cargo_cmd+=(+nightly miri)
        build_args=(run --release --offline --locked --no-default-features --target i686-unknown-linux-gnu --);;
    miribe)
        # Another byte order
        cargo_cmd+=(+nightly miri)
        build_args=(run --release --offline --locked --no-default-features --target s390x-unknown-linux-gnu --);;
    esac
}

# build <variant>: builds the harness against /repo's working tree. Run it in a subshell.
build() {
    local stamp log
    variant_env "$1"
    mkdir -p "$CARGO_TARGET_DIR"
    exec 9>"$CARGO_TARGET_DIR/.zv-lock"
    flock 9
    stamp="$(repo_stamp)"
    if [ "$(cat "$CARGO_TARGET_DIR/.zv-stamp" 2>/dev/null)" != "$stamp" ]; then
        # Touched, whatever their times
        find "$CARGO_TARGET_DIR" -type d -path '*/.fingerprint/zippity-*' -prune -exec rm -rf {} + 2>/dev/null
    fi
    log="$CARGO_TARGET_DIR/.zv-build.log"
    # Miri builds by running something that ends at once
    local more=()
    [[ "$1" = miri* ]] && more=(--build-only)
    if ! (cd "$here/harness" && "${cargo_cmd[@]}" "${build_args[@]}" "${more[@]}") >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "HARNESS-ERROR the harness ($1) does not build against /repo" >&2
        flock -u 9
        return 1
    fi
    echo "$stamp" >"$CARGO_TARGET_DIR/.zv-stamp"
    flock -u 9
    return 0
}
