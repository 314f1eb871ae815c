#!/opt/venv/bin/python
import os
import sys
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vlib import harness  # noqa: E402

sys.exit(harness.main(sys.argv[1:]))
