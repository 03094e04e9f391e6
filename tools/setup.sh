#!/bin/bash
# builds the extractor and the battery; the checks do so themselves when this was not run
cd "$(dirname "$0")/.." || exit 1
(cd tools/extract && cargo build --release --offline) || exit 1
(cd battery && cargo build --release --offline) || exit 1
