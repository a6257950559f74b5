#!/bin/bash
# builds the IR->C translator; the checks rebuild everything else from /repo on each run
set -e
cd "$(dirname "$0")"
python3 -c "import vfrun; vfrun.ensure_tool()"
