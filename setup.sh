#!/bin/sh
# nothing to build: the checks are pure Python and read /repo's working tree on every run
cd "$(dirname "$0")" && python3 -c "import sys; sys.path.insert(0, '.'); import engine.vm, engine.tape, engine.parsecheck, registry"
