#!/bin/bash
# usage: check.sh PROPERTY [args]   -- run one property's exploration against /repo
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -W ignore -m mc.run "$@"
