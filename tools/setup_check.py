#!/usr/bin/env python3
"""Nothing to build: the checks load /repo/lib directly. Makes sure the interpreter is there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
sys.exit(subprocess.call([check.PYTHON, '-c', 'import sqlite3, threading']))
