#!/bin/bash
# builds the engine, the instrumented and native objects and the harness executables (all under /verif/build)
cd "$(dirname "$0")" && exec python3 check.py all --build-only
