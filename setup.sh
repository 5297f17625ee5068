#!/bin/bash
# Builds the compiled extensions of /repo (git-ignored build products) so that the checks start quickly.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'from vlib import build; import sys; rc, log = build.build(); print(log[-2000:] if rc else "built"); sys.exit(rc)'
