#!/bin/bash
# Nothing has to be prepared ahead: every check builds what it needs from /repo's working tree.
# This only proves that the tools the checks use are present.
set -e
cd "$(dirname "$0")/.."
python3-vt -c "import numpy, scipy"
bash /opt/vp/build.sh > /tmp/.vf_setup.log 2>&1 || { tail -20 /tmp/.vf_setup.log; exit 1; }
rm -f /tmp/.vf_setup.log
