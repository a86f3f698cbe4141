#!/bin/bash
# Builds the arithmetic overrides and cross-checks them against their TLA+ definitions.
cd "$(dirname "$0")" && exec python3 harness/setup.py
