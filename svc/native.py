"""The native build of the code under test, driven through a line protocol."""
import struct
import subprocess
import threading


def bits(x):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', float(x)))[0]


class Native:
    """Lazy process; results are floats or the string 'panic' / 'timeout'."""

    def __init__(self, path):
        self.cmd = [path] if isinstance(path, str) else list(path)
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True)

    def call(self, fn, a, b, o, reg=None, timeout=5.0):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write('%s %s %s %d%s\n' % (fn, bits(a), bits(b), o, '' if reg is None else ' %d' % reg))
        self.p.stdin.flush()
        proc = self.p
        t = threading.Timer(timeout, proc.kill)
        t.start()
        line = proc.stdout.readline()
        t.cancel()
        if not line:
            proc.wait()
            self.p = None
            return 'timeout'
        line = line.strip()
        if line == 'panic':
            return 'panic'
        return struct.unpack('<d', struct.pack('<Q', int(line, 16)))[0]

    def many(self, calls):
        """calls: list of (fn, a, b, o, reg).  One batch through a fresh process."""
        txt = ''.join('%s %s %s %d%s\n' % (fn, bits(a), bits(b), o, '' if reg is None else ' %d' % reg)
                      for fn, a, b, o, reg in calls)
        try:
            out = subprocess.run(self.cmd, input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                 timeout=120).stdout.split('\n')
        except subprocess.TimeoutExpired:
            return None
        return [x if x in ('panic', '') else struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0] for x in
                out[:len(calls)]]
