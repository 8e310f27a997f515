#!/usr/bin/env python3
"""Checks that the tools the checks use are there, and that the driver builds."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

d = tempfile.mkdtemp(prefix='verif-setup-')
try:
    vlib.build_driver(d)
    subprocess.run(['java', '-version'], check=True, capture_output=True)
    for f in vlib.TLA_CP.split(':'):
        assert os.path.exists(f), f
finally:
    shutil.rmtree(d)
print('ready')
