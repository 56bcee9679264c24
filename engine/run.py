#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import threading
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
import frame
sys.modules.setdefault("frame", frame)
rc = [2]


sys.exit(frame.main(sys.argv))
