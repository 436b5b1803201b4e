#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] | ID --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import engine  # noqa: E402

if __name__ == '__main__':
    sys.exit(engine.main())
