#!/bin/bash
cd /verif/sim && RUSTC_WRAPPER=/verif/sim/rustc-wrapper.sh cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${1:-60}
