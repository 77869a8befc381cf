#!/usr/bin/env python3
"""Checks that the toolchain works: compiles the rational override and lets TLC evaluate its self-test."""
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import tlc  # noqa

d = tempfile.mkdtemp(prefix='jptv-setup-')
try:
    r = tlc.run(tlc.compile_overrides(d), d, 'MCIntervals')
    print('toolchain works: %d states' % r.distinct)
finally:
    shutil.rmtree(d)
