#!/usr/bin/env python3
"""Warms the object cache; every check also builds what it needs itself."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
try:
    build.bant('asan')
    for p in sorted(os.listdir(os.path.join(build.VERIF, 'probe'))):
        if p.endswith('.cc') and p != 'arena.cc':
            build.probe(p[:-3])
except build.BuildError as e:
    print(e, file=sys.stderr)
    sys.exit(1)
