"""Common part of the driver processes (runs in the interpreter that loads the extension under check)."""
import json
import os
import struct
import sys
import traceback

_out = os.fdopen(os.dup(1), 'wb', buffering=0)
os.dup2(2, 1)


def emit(ev):
    _out.write((json.dumps(ev) + '\n').encode())


from drv_enc import wint, unwint, f64, unf64  # noqa


def loop(run_case):
    for line in sys.stdin:
        case = json.loads(line)
        try:
            run_case(case)
        except BaseException:
            traceback.print_exc()
            sys.stderr.write('!driver-error!\n')
            sys.stderr.flush()
            os._exit(3)
        _out.write(b'.\n')
