#!/usr/bin/env python3
import os
import resource
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def go():
    from sa.run import main
    global rc
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3


rc = 3
try:
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
except (ValueError, OSError):
    pass
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc)
