#!/usr/bin/env python3
"""setup: the tools the checks need are present and the sources parse"""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
import z3
from engine import front, slicer
assert os.path.exists(slicer.PYPY), slicer.PYPY
assert shutil.which('g++')
print('z3', z3.get_version_string(), 'ok')
