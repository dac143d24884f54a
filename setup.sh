#!/bin/bash
# Builds the engine so that checks need not.
cd "$(dirname "$0")" && ./check.sh --build
