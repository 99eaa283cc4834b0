#!/usr/bin/env python3
"""Run one harness, or many sample paths, in the natively built harness library.

replay_native.py LIB run HARNESS TIMES SEED   (inputs "name value" per line on stdin)
replay_native.py LIB batch                    (JSON lines on stdin: {h, inputs, trace})
"""
import ctypes, json, os, sys

def load(lib):
    l = ctypes.CDLL(lib)
    l.replay_run.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint64, ctypes.c_uint64]
    return l

def run(l, h, text, times=1, seed=1):
    f = ctypes.cast(getattr(l, h), ctypes.c_void_p)
    b = text.encode()
    return l.replay_run(f, b, len(b), times, seed)

def child(l, h, text):
    """In a process of its own: (status, output)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.dup2(w, 1); os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
        os.close(r); os.close(w)
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        import signal
        signal.alarm(60)
        os._exit(run(l, h, text))
    os.close(w)
    out = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c: break
        out += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return st, out.decode(errors='replace')

def main():
    l = load(sys.argv[1])
    if sys.argv[2] == 'run':
        sys.exit(run(l, sys.argv[3], sys.stdin.read(), int(sys.argv[4]), int(sys.argv[5])))
    for line in sys.stdin:
        d = json.loads(line)
        st, out = child(l, d['h'], '\n'.join('%s %s' % (n, v) for n, _, v in d['inputs']))
        tr = [x[len('REPLAY-TRACE '):] for x in out.splitlines() if x.startswith('REPLAY-TRACE ')]
        bad = None
        if st != 0: bad = 'status %d: %s' % (st, out[-300:])
        elif len(tr) != len(d['trace']) or any(a != b and b != 'sym' for a, b in zip(tr, d['trace'])): bad = 'trace %s, expected %s' % (tr, d['trace'])
        print(json.dumps({'h': d['h'], 'bad': bad}), flush=True)

main()
