#!/bin/sh
# nothing to compile: checks that the tools are there and that the code under test loads over the models
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python -B -c 'import z3; from symx.world import World; World("unix", "ctypes"); print("ok")'
