#!/usr/bin/env python3
"""check.py <property id> | setup | all"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
from analysis import check

rc = [2]
t = threading.Thread(target=lambda: rc.__setitem__(0, check.main(sys.argv[1:])))
t.start()
t.join()
sys.exit(rc[0])
