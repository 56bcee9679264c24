#!/usr/bin/env python3-vt
"""Builds the extractor and extracts every analysis unit in parallel."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import frame
from concurrent.futures import ThreadPoolExecutor
frame.tool()
us = [f[:-4] for f in os.listdir(os.path.join(frame.VERIF, "engine", "tu")) if f.endswith(".cpp")]
with ThreadPoolExecutor(4) as ex:
    for n, p in zip(us, ex.map(frame.extract, us)):
        print(n, p)
