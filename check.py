#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONHASHSEED', '0')
from mwsa import chk
from mwsa.checks import registry
if __name__ == '__main__':
    chk.main(getattr(registry, sys.argv[1])())
