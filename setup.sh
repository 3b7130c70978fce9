#!/bin/bash
# builds the extractor from the committed source (checks build it themselves when it is missing)
cd "$(dirname "$0")/xlat" && CARGO_NET_OFFLINE=true cargo build --offline --release -q
