#!/bin/bash
# Nothing to build: pure Python, run by the venv that has gempakio's dependencies.
# Checks the reference models against the sample files written by GEMPAK itself.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC PROJ_NETWORK=OFF
exec /opt/venv/bin/python -m mc.selftest
