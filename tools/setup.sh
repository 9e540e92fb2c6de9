#!/bin/bash
# builds the MIR driver
cd "$(dirname "$0")/../driver" && cargo +nightly build --offline -q
