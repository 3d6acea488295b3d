"""Cases of a driver, one at a time: a case that never ends is ended, and known as the one at fault."""
import faulthandler
import sys

# A case takes seconds at most, import and compilation included.
LIMIT = 300


def watched(cases):
    for c in cases:
        print(f"CASE {c['id']}", file=sys.stderr, flush=True)
        faulthandler.dump_traceback_later(LIMIT, exit=True)
        yield c
    faulthandler.cancel_dump_traceback_later()
