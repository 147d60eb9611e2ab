#!/bin/bash
# Builds the monitors against /repo's working tree (the checks rebuild whatever changed).
cd "$(dirname "$0")" || exit 2
exec bash run.sh --build
