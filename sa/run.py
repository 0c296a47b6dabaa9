#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: decide one property on /repo's current tree"""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    sys.exit(core.main(a.id, a.tier))
