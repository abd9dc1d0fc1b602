#!/usr/bin/env python3
"""check.py ID | setup | replay FILE   (environment: VERIF_SEED, VERIF_TIER)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import main
sys.exit(main.main(sys.argv[1:]))
