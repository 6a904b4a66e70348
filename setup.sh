#!/bin/sh
# Nothing to build: the checks are Python and import the library from /repo. Make sure the toolchain is usable.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
/opt/venv/bin/python -B -c "import expression, reactivex, asyncio, sys; sys.exit(0 if sys.version_info[:2] >= (3, 10) else 1)"
