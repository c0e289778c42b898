#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] | --replay FILE"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check
if __name__ == "__main__":
    sys.exit(check.main(sys.argv[1:]))
