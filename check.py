#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : exit 0 held / 1 VIOLATION line"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from npv.check import main  # noqa
sys.exit(main(sys.argv[1:]))
