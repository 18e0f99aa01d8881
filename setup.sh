#!/bin/bash
# builds the front end into /verif/build (checks build it themselves when it is missing)
set -e
cd "$(dirname "$0")"
mkdir -p build
python3 -c "
import sys; sys.path.insert(0,'engine')
import program; program.Program(); print('ok')"
