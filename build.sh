#!/bin/bash
# Builds the simulation harness against /repo's current working tree (release, offline).
# Exit 0: /verif/harness/target/release/dst is up to date.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
mkdir -p target
exec 9>target/.verif-lock
flock 9
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# what is compiled is decided by content, not by time stamps
hash="$( (cd /repo && find packet server-lib bm server Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum;
          cd "$here" && find harness/src harness/Cargo.toml harness/Cargo.lock simrt/src simrt/Cargo.toml vendor bmcopy/Cargo.toml srvcopy/Cargo.toml srvshim/Cargo.toml srvshim/src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)"
bin=target/release/dst
if [ -x $bin ] && [ "$(cat target/.verif-hash 2>/dev/null)" = "$hash" ]; then
  exit 0
fi
rm -f target/.verif-hash
# programs: their sources are copied and their mains made callable
program() {
  rm -rf "$here/$2/src"
  cp -r "/repo/$1/src" "$here/$2/src" || exit 2
  # leaving the process means the simulated one
  find "$here/$2/src" -name '*.rs' -exec sed -i -E 's/(\bstd::)?\bprocess::exit\b/::simrt::exit/g' {} +
  cat >>"$here/$2/src/main.rs" <<'EOF'

/// (appended by the simulation harness) true: the program would have exited with status 0
pub fn dst_main() -> bool {
    trait Status {
        fn dst_ok(self) -> bool;
    }
    impl Status for () {
        fn dst_ok(self) -> bool {
            true
        }
    }
    impl<T, E> Status for std::result::Result<T, E> {
        fn dst_ok(self) -> bool {
            std::result::Result::is_ok(&self)
        }
    }
    impl Status for std::process::ExitCode {
        fn dst_ok(self) -> bool {
            self == std::process::ExitCode::SUCCESS
        }
    }
    main().dst_ok()
}
EOF
}
program bm bmcopy
program server srvcopy
if [ -d target/release/deps ]; then
  cargo clean --offline --release -p apiformes-packet -p apiformes-server-lib -p simrt -p apiformes-bm -p apiformes-server -p srvshim -p dst >target/.verif-clean.log 2>&1
fi
if ! cargo build --offline --release >target/.verif-build.log 2>&1; then
  echo "the harness does not build against /repo:" >&2
  grep -E '^error' -A12 target/.verif-build.log | head -60 >&2
  exit 2
fi
echo "$hash" >target/.verif-hash
