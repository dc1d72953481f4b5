"""Runs one serialize() between two marks; the outcome is the exit status."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
spec = json.load(open(sys.argv[1]))
from drv import *
from graph import *

root, memo = build(spec['g'])
if spec.get('size'):
    import hashlib
    b = bytes(pointless.serialize_to_bytearray(root, **spec['opts']))
    open(sys.argv[1] + '.new', 'wb').write(b)
if 'limit' in spec:
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (spec['limit'], spec['limit']))


def fds():
    return sorted(os.listdir('/proc/self/fd'))


# so that nothing is left to allocate or open the first time
before = fds()
os.access('/vp-begin', 0)
try:
    pointless.serialize(root, spec['target'], **spec['opts'])
    res = 0
except (OSError, ValueError, MemoryError) as x:
    res = 1
os.access('/vp-end', 0)
os._exit(10 + res + (2 if fds() != before else 0))
