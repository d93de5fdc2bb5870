import os
import sys
import traceback
from mc import core, clock
err = sys.stderr
try:
    core.main(sys.argv[1:])
    rc = 0
except:
    rc = 3
    err.write(traceback.format_exc())
    err.flush()
os._exit(rc)
