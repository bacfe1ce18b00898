#!/bin/bash
# offline: builds the fact extractor and warms the fact cache
set -e
cd "$(dirname "$0")/.."
bash tool/build.sh
python3 - <<'P'
import sys
sys.path.insert(0, '.')
from sai import db
db.gen_protos()
P
