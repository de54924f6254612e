#!/bin/bash
# builds the engine and the harness once (the checks build what they need themselves)
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.argv = ["check.py", "setup"]
sys.path.insert(0, ".")
import check, shutil
tmp = check.build()[0]
shutil.rmtree(tmp)
print("built")
P
