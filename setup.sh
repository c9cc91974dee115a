#!/bin/bash
. "$(dirname "$(realpath "$0")")/env.sh"
exec $PY -m sim.runner build
