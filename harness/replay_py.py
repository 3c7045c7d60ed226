"""Native replay through the Python extension: "fn bits_a bits_b o_id" lines; argv[1] is the directory of the module."""
import struct
import sys
sys.path.insert(0, sys.argv[1])
import seuif97
for line in sys.stdin:
    w = line.split()
    if len(w) < 4:
        continue
    a, b = (struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0] for x in w[1:3])
    try:
        r = getattr(seuif97, w[0])(a, b, int(w[3]))
        print('%016x' % struct.unpack('<Q', struct.pack('<d', r))[0], flush=True)
    except BaseException:
        print('panic', flush=True)
