#!/usr/bin/env python3
"""builds the front end and parses /repo once"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mwsa import ir
P = ir.load(); print('%d units, %d functions' % (len(P.units), len(P.fun)))
