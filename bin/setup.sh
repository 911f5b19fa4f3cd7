#!/bin/bash
# Builds the simulator once; every check rebuilds what changed.
cd "$(dirname "$0")/.." && bash bin/build.sh build/plain plain
