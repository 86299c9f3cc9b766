#!/bin/bash
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec env -u PYTHONPATH PYTHONDONTWRITEBYTECODE=1 TZ=UTC0 python3-vt -B selftest.py
