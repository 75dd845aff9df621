import sys
from .core import main
try:
    rc = main()
except SystemExit as e:
    rc = e.code
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.stderr.flush()
import os
os._exit(rc if isinstance(rc, int) else 2)
