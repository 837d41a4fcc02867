#!/usr/bin/env python3
"""check.py PROP [--replay FILE] : run one property's check (tier and seed from VERIF_TIER / VERIF_SEED)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hgv import harness
sys.exit(harness.main(sys.argv[1:]))
