#!/usr/bin/env python3
"""Runs a counterexample script against the real code, built natively from /repo.

    replay.py SCRIPT.json      exit 0: everything as expected, 1: the violation shows, 2: error

A script is a list of harness calls with concrete arguments and what is expected of them.  Every
variant (debug and release build, input at either end of its pages) runs in a process of its own.
"""
import sys
import os
import json
import mmap
import ctypes
import hashlib
import resource
import signal
import struct
import subprocess
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
CAN = 512
PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


def filler(seed, i):
    """default content of input bytes the counterexample does not fix"""
    return hashlib.blake2b(b'%d' % (i // 64), key=seed.encode()[:60] or b'x', digest_size=64).digest()[i % 64]


def region(n):
    """n bytes between two inaccessible pages -> address"""
    m = (n + PAGE - 1) // PAGE * PAGE
    a = libc.mmap(None, m + 2 * PAGE, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000, -1, 0)
    if a in (None, ctypes.c_void_p(-1).value):
        raise MemoryError('mmap')
    libc.mprotect(a, PAGE, 0)
    libc.mprotect(a + PAGE + m, PAGE, 0)
    return a + PAGE, m


class Run(object):
    def __init__(self, sc, lib, layout, symtab):
        self.sc = sc
        self.layout = layout
        self.lib = ctypes.CDLL(lib)
        self.base = None
        if sc.get('cpu'):
            self.cpu(sc['cpu'], symtab)
        if sc.get('trap'):
            self.trap(sc['trap'], lib, symtab)
        self.addr = {}
        self.size = {}
        self.snaps = {}
        for nm, a in sorted(sc.get('arrays', {}).items()):
            self.array(nm, a)
        for nm, o in sorted(sc.get('objs', {}).items()):
            self.obj(nm, o)
        for nm, o in sorted(sc.get('objs', {}).items()):
            if 'words' in o:
                for i, w in enumerate(o['words']):
                    ctypes.memmove(self.addr[nm] + i * o['w'] // 8, (self.arg(w) & ((1 << o['w']) - 1)).to_bytes(o['w'] // 8, 'little'), o['w'] // 8)
        self.rets = {}

    # ---------------------------------------------------------- memory
    def array(self, nm, a):
        n = a['len']
        p, m = region(n + 64)
        if self.layout == 'end':
            q = p + m - n
        else:
            q = p + (a.get('align', 0) & 63)
        fixed = {int(k): v for k, v in a.get('bytes', {}).items()}
        k = min(n, 1 << 18)
        buf = bytearray(k)
        for b in range(0, k, 64):
            blk = hashlib.blake2b(b'%d' % (b // 64), key=nm.encode()[:60], digest_size=64).digest()
            buf[b:b + 64] = blk[:k - b]
        for i, v in fixed.items():
            if i < k:
                buf[i] = v
        ctypes.memmove(q, bytes(buf), k)
        for i, v in fixed.items():
            if k <= i < n:
                ctypes.memset(q + i, v, 1)
        self.addr[nm] = q
        self.size[nm] = n

    def obj(self, nm, o):
        n = o['size']
        al = max(o.get('align', 1), 64)
        p, m = region(n + 2 * CAN + al)
        p += CAN
        p = (p + al - 1) // al * al
        if o.get('align', 1) < 64:
            p += o['align']     # no more alignment than promised
        ctypes.memset(p - CAN, 0xA5, n + 2 * CAN)
        self.addr[nm] = p
        self.size[nm] = n

    def canaries(self):
        for nm, o in self.sc.get('objs', {}).items():
            p, n = self.addr[nm], self.size[nm]
            lo = ctypes.string_at(p - CAN, CAN)
            hi = ctypes.string_at(p + n, CAN)
            if lo != b'\xa5' * CAN or hi != b'\xa5' * CAN:
                return 'memory around %s was overwritten' % nm
        return None

    def inputs(self):
        """digest of the inputs, to see whether a call wrote to them"""
        h = hashlib.blake2b()
        for nm in sorted(self.sc.get('arrays', {})):
            n = min(self.size[nm], 1 << 18)
            h.update(ctypes.string_at(self.addr[nm], n))
        return h.digest()

    # ---------------------------------------------------------- cpu features
    def cpu(self, want, symtab):
        """make run-time detection report fewer features"""
        f = getattr(self.lib, 'h_feat_' + next(iter(want)).replace('.', '_'), None)
        if f is None:
            return
        for k in want:
            getattr(self.lib, 'h_feat_' + k.replace('.', '_'))()
        sym = symtab.get('CACHE')
        if not sym:
            return
        off, size = sym
        base = ctypes.cast(self.lib.h_sizes, ctypes.c_void_p).value - symtab['h_sizes'][0]
        for k, v in sorted(want.items()):
            if v:
                continue
            g = getattr(self.lib, 'h_feat_' + k.replace('.', '_'))
            g.restype = ctypes.c_uint8
            if not g():
                continue
            # find the bit: the one whose clearing makes the answer no
            for w in range(size // 8):
                p = ctypes.c_uint64.from_address(base + off + 8 * w)
                old = p.value
                for b in range(62):
                    if old >> b & 1:
                        p.value = old & ~(1 << b)
                        if not g():
                            break
                        p.value = old
                else:
                    continue
                break
            if g():
                raise Exception('cannot clear feature ' + k)

    def trap(self, names, lib, symtab):
        """a breakpoint instruction at the entry of each of these functions"""
        want = set(demangle(names))
        tab = [l.split() for l in subprocess.run(['nm', lib], stdout=subprocess.PIPE).stdout.decode().split('\n')]
        tab = [f for f in tab if len(f) == 3 and f[1] in 'tT']
        base = ctypes.cast(self.lib.h_sizes, ctypes.c_void_p).value - symtab['h_sizes'][0]
        n = 0
        for f, d in zip(tab, demangle([f[2] for f in tab])):
            if d in want:
                a = base + int(f[0], 16)
                libc.mprotect(a & ~(PAGE - 1), 2 * PAGE, 7)
                ctypes.memset(a, 0xCC, 1)
                n += 1
        if not n:
            raise Exception('no function to put a breakpoint on')

    # ---------------------------------------------------------- calls
    def arg(self, a):
        if type(a) is int:
            return a
        if 'at' in a:
            return (self.addr[a['at']] + a.get('off', 0)) & ((1 << 64) - 1)
        if 'ret' in a:
            return self.rets[a['ret']]
        raise Exception('argument %r' % (a,))

    def steps(self, mark):
        for i, s in enumerate(self.sc['steps']):
            mark('step %d %s' % (i, s['fn']))
            if s['fn'] == '!snapshot':
                self.snaps[s['name']] = ctypes.string_at(self.addr[s['obj']] + s.get('off', 0), s['len'])
                continue
            if s['fn'] == '!poke':          # replace the content of a hash
                q, n = self.hashat(s['hash'])
                ctypes.memmove(q, self.arg(s['src']), n)
                continue
            if s['fn'] == '!repeat':        # the same calls with other contents give the same text
                for k in range(s['times']):
                    for nm in s['arrays']:
                        n = min(self.size[nm], 4096)
                        ctypes.memmove(self.addr[nm], b''.join(hashlib.blake2b(b'%d %d' % (j, k), key=nm.encode()[:60], digest_size=64).digest() for j in range(n // 64 + 1))[:n], n)
                    for j in range(s['first'], s['last'] + 1):
                        self.step(j, self.sc['steps'][j])
                    x, y = [ctypes.string_at(self.arg(p), self.rets[j]).decode(errors='replace') for j, p in (s['a'], s['b'])]
                    if x != y:
                        self.bad = 'texts differ: %r and %r' % (x, y)
                        break
                self.refilled = True
                continue
            self.step(i, s)

    bad = None
    refilled = False

    def step(self, i, s):
        f = getattr(self.lib, s['fn'])
        w = s.get('w', 64)
        f.restype = {1: ctypes.c_uint8, 8: ctypes.c_uint8, 32: ctypes.c_uint32}.get(w, ctypes.c_uint64)
        f.argtypes = [ctypes.c_uint64] * len(s['args'])
        self.rets[i] = f(*[self.arg(a) for a in s['args']])

    def hashbytes(self, d):
        """bytes of the Hash object at address, via its public interface"""
        q, n = self.hashat(d)
        return ctypes.string_at(q, n)

    def hashat(self, d):
        p = self.arg(d)
        self.lib.h_h_len.restype = ctypes.c_size_t
        self.lib.h_h_ptr.restype = ctypes.c_size_t
        n = self.lib.h_h_len(ctypes.c_size_t(p))
        q = self.lib.h_h_ptr(ctypes.c_size_t(p))
        return q, min(n, 4096)

    def pieces(self, ps):
        for nm, off, n in ps:
            if type(nm) is dict:
                yield bytes(nm['bytes'])
                continue
            a = self.addr[nm] + off
            while n:
                k = min(n, 1 << 24)
                yield ctypes.string_at(a, k)
                a += k
                n -= k

    def blob(self, x):
        if type(x) is list and x and type(x[0]) is list:
            return b''.join(self.pieces(x))
        if type(x) is list:
            return bytes(x)
        return b''

    def expected(self, x):
        if x['algo'] == 'blake2s':
            p = dict(x.get('params', {}))
            kw = dict(digest_size=p.get('digest_length', 32), fanout=p.get('fanout', 1), depth=p.get('depth', 1), leaf_size=p.get('leaf_length', 0), node_offset=p.get('node_offset', 0), node_depth=p.get('node_depth', 0), inner_size=p.get('inner_length', 0), salt=self.blob(p.get('salt', [])), person=self.blob(p.get('personal', [])), last_node=bool(x.get('last', 0)), key=self.blob(x.get('key', [])))
            h = blake2s(**kw)
            for b in self.pieces(x['msg']):
                h.update(b)
            return h.digest()
        if x['algo'] == 'blake2sp':
            return blake2sp(b''.join(self.pieces(x['msg'])), self.blob(x.get('key', [])), x.get('digest_length', 32))
        raise Exception('algorithm ' + x['algo'])

    def check(self, x, mark=None):
        k = x['kind']
        if k == 'show':
            mark('show ' + self.hashbytes(x['hash']).hex())
        elif k == 'digest':
            g = self.hashbytes(x['hash'])
            w = self.expected(x)
            if g != w:
                return 'digest %s, expected %s' % (g.hex(), w.hex())
        elif k == 'same':
            g, w = self.hashbytes(x['a']), self.hashbytes(x['b'])
            if g != w:
                return 'digests %s and %s should be equal' % (g.hex(), w.hex())
        elif k == 'ret':
            g = self.rets[x['step']]
            if g != x['value']:
                return 'step %d (%s) returned %d, expected %d' % (x['step'], self.sc['steps'][x['step']]['fn'], g, x['value'])
        elif k == 'bytes':
            g = ctypes.string_at(self.arg(x['at']), len(x['want']))
            if list(g) != x['want']:
                return 'bytes %s, expected %s' % (g.hex(), bytes(x['want']).hex())
        elif k == 'snap':
            if self.snaps[x['a']] != self.snaps[x['b']]:
                return 'state changed between %s and %s' % (x['a'], x['b'])
        elif k == 'hashbytes':
            g, w = self.hashbytes(x['hash']), self.blob([x['src']])
            if g != w:
                return 'hash shows %s, expected %s' % (g.hex(), w.hex())
        elif k == 'bytesat':
            w = self.blob([x['src']])
            g = ctypes.string_at(self.rets[x['step']], len(w))
            if g != w:
                return 'bytes %s, expected %s' % (g.hex(), w.hex())
        elif k == 'eqbytes':
            a, b = self.hashbytes(x['a']), self.blob(x['b']) if type(x['b']) is list else self.hashbytes(x['b'])
            w = int((a == b) != bool(x.get('neg')))
            g = self.rets[x['step']]
            if g != w:
                return '%s of %s and %s gave %d' % ('!=' if x.get('neg') else '==', a.hex(), b[:64].hex(), g)
        elif k == 'text':
            n = self.rets[x['step']]
            g = ctypes.string_at(self.arg(x['at']), n).decode(errors='replace')
            if 'other' in x:
                n2 = self.rets[x['other'][0]]
                w = ctypes.string_at(self.arg(x['other'][1]), n2).decode(errors='replace')
                if g != w:
                    return 'texts differ: %r and %r' % (g, w)
            if 'want' in x and g != x['want']:
                return 'text %r, expected %r' % (g, x['want'])
            if 'hexof' in x:
                w = self.hashbytes(x['hexof']).hex()
                if x.get('wrap'):
                    w = x['wrap'].replace('%', w)
                if g != w:
                    return 'text %r, expected %r' % (g, w)
        else:
            raise Exception('expectation ' + k)
        return None


def blake2s(digest_size, key, fanout, depth, leaf_size, node_offset, node_depth, inner_size, salt, person, last_node):
    """hashlib, except for values its interface rejects although the format has them"""
    if depth >= 1:
        return hashlib.blake2s(digest_size=digest_size, key=key, fanout=fanout, depth=depth, leaf_size=leaf_size, node_offset=node_offset, node_depth=node_depth, inner_size=inner_size, salt=salt, person=person, last_node=last_node)
    raise Exception('depth 0')


def blake2sp(data, key, n):
    root = hashlib.blake2s(digest_size=n, fanout=8, depth=2, node_offset=0, node_depth=1, inner_size=32, last_node=True)
    # the root carries the key length but does not absorb the key: hashlib cannot say that
    leaves = b''
    for i in range(8):
        h = hashlib.blake2s(digest_size=32, key=key, fanout=8, depth=2, node_offset=i, node_depth=0, inner_size=32, last_node=i == 7)
        # the digest length in the leaves' parameter block is that of the whole hash
        leaves += leaf(data, key, n, i)
    if key or n != 32:
        sys.path.insert(0, os.path.join(HERE, 'engine'))
        import spec
        return spec.roothash(leaves, len(key), n)
    root.update(leaves)
    return root.digest()


def leaf(data, key, n, i):
    part = b''.join(data[o:o + 64] for o in range(64 * i, max(len(data), 64 * i + 1), 512))
    if n == 32:
        return hashlib.blake2s(part, digest_size=32, key=key, fanout=8, depth=2, node_offset=i, node_depth=0, inner_size=32, last_node=i == 7).digest()
    sys.path.insert(0, os.path.join(HERE, 'engine'))
    import spec
    if key:
        part = key + b'\0' * (64 - len(key)) + part
    return spec.leafhash(part, i, len(key), n)


def child(script, lib, layout, symf):
    sc = json.load(open(script))
    symtab = json.load(open(symf))
    out = os.fdopen(os.dup(1), 'w')

    def mark(s):
        out.write('@' + s + '\n')
        out.flush()
    run = Run(sc, lib, layout, symtab)
    before = run.inputs()
    mark('ready')
    run.steps(mark)
    mark('done')
    if run.bad:
        mark('bad ' + run.bad)
    for x in sc.get('expect', []):
        r = run.check(x, mark)
        if r:
            mark('bad ' + r)
            break
    r = run.canaries()
    if r:
        mark('bad ' + r)
    if not run.refilled and run.inputs() != before:
        mark('bad an input was written to')
    mark('checked')
    out.flush()
    os._exit(0)


def variant(script, sc, lib, layout, symf, timeout):
    """-> None (as expected), a description of the violation, or raises"""
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    env = dict(os.environ, RUST_BACKTRACE='0')
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--child', script, lib, layout, symf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim, env=env)
    except subprocess.TimeoutExpired:
        return None
    marks = [l[1:] for l in p.stdout.decode(errors='replace').split('\n') if l.startswith('@')]
    last = marks[-1] if marks else ''
    err = p.stderr.decode(errors='replace')
    if not marks or marks[0] != 'ready':
        raise Exception('replay did not start: ' + err[-800:])
    want = [dict(x, step=x.get('step', len(sc['steps']) - 1)) for x in sc.get('expect', []) if x['kind'] == 'panic']
    if sc.get('trap'):
        if p.returncode == -signal.SIGTRAP:
            return '%s enters %s without the CPU feature it is compiled for' % (last, demangle(sc['trap'])[0])
        return None
    if p.returncode < 0:
        step = int(last.split()[1]) if last.startswith('step ') else -1
        how = signal.Signals(-p.returncode).name
        msg = [l for l in err.split('\n') if 'panicked' in l]
        det = ''
        if msg:
            ls = err.split('\n')
            det = ' '.join(ls[ls.index(msg[0]):][:2])
        if want and step == want[0]['step'] and msg:
            return None
        if last == 'checked':
            raise Exception('replay failed: ' + err[-800:])
        return '%s in %s %s' % (how, last, det)
    bad = [m for m in marks if m.startswith('bad ')]
    if want:
        return 'step %d (%s) should have panicked' % (want[0]['step'], sc['steps'][want[0]['step']]['fn'])
    if bad:
        return bad[0][4:]
    if last != 'checked':
        raise Exception('replay failed: ' + err[-800:])
    return None


def demangle(names):
    import re
    out = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
    return [re.sub(r'\[[0-9a-f]+\]', '', x).strip() for x in out[:len(names)]]


def outcome(script, lib, symf, timeout):
    """what a run shows: its digests, or where it ends"""
    p = subprocess.run([sys.executable, os.path.abspath(__file__), '--child', script, lib, 'align', symf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, RUST_BACKTRACE='0'))
    marks = [l[1:] for l in p.stdout.decode(errors='replace').split('\n') if l.startswith('@')]
    if not marks or marks[0] != 'ready':
        raise Exception('replay did not start: ' + p.stderr.decode(errors='replace')[-800:])
    if p.returncode < 0:
        return '%s in %s' % (signal.Signals(-p.returncode).name, marks[-1])
    if marks[-1] != 'checked':
        raise Exception('replay failed: ' + p.stderr.decode(errors='replace')[-800:])
    return ' '.join(m[5:] for m in marks if m.startswith('show '))


def compare(script, sc, timeout):
    """the same calls in every configuration -> None or how they differ"""
    weak = {k: 0 for k in ('avx2', 'avx', 'sse4.2', 'sse4.1', 'ssse3', 'sse3')}
    made = {'h_s_new': 's', 'h_s_default': 's', 'h_p_to_state': 's', 'h_sp_new': 'sp', 'h_sp_default': 'sp', 'h_sp_p_to_state': 'sp'}
    plain = [s for s in sc['steps'] if 'force_portable' not in s['fn']]
    forced = []
    for s in plain:
        forced.append(s)
        if s['fn'] in made:
            forced.append(dict(fn='h_%s_force_portable' % made[s['fn']], args=[s['args'][-1]]))
    cfg = [('with all CPU features', True, {}, plain), ('without AVX2', True, {'avx2': 0}, plain), ('without SSE4.1 and AVX2', True, weak, plain),
           ('without std', False, {}, plain), ('with the portable implementation forced', True, {}, forced), ('as found', sc.get('std', True), sc.get('cpu', {}), sc['steps'])]
    for rel in (False, True):
        got = []
        for what, std, cpu, steps in cfg:
            x = dict(sc, std=std, cpu=cpu, steps=steps)
            f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
            json.dump(x, f)
            f.close()
            try:
                lib, symf = [(l, y) for r, l, y in libs(std) if r == rel][0]
                got.append((what, outcome(f.name, lib, symf, timeout)))
            finally:
                os.unlink(f.name)
        for what, g in got[1:]:
            if g.split(' in ')[0] != got[0][1].split(' in ')[0]:
                return '%s: %s; %s: %s (%s build)' % (got[0][0], got[0][1][:140], what, g[:140], 'release' if rel else 'debug')
    return None


def symbols(lib):
    out = subprocess.run(['nm', '-S', lib], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    tab = {}
    for l in out.split('\n'):
        f = l.split()
        if len(f) == 4:
            if f[3] == 'h_sizes':
                tab['h_sizes'] = (int(f[0], 16), int(f[1], 16))
            if 'std_detect' in f[3] and 'CACHE' in f[3]:
                tab['CACHE'] = (int(f[0], 16), int(f[1], 16))
    return tab


_libs = {}


def libs(std):
    if std not in _libs:
        sys.path.insert(0, os.path.join(HERE, 'engine'))
        import build
        ls = []
        for rel in (False, True):
            p = build.library(rel, std)
            f = p + '.sym.json'
            json.dump(symbols(p), open(f, 'w'))
            ls.append((rel, p, f))
        _libs[std] = ls
    return _libs[std]


def replay(script, log=None, timeout=240):
    """-> None or a description of what is wrong"""
    sc = json.load(open(script))
    total = sum(a['len'] for a in sc.get('arrays', {}).values())
    if sc.get('compare'):
        return compare(script, sc, timeout)
    for rel, lib, symf in libs(sc.get('std', True)):
        if total > (1 << 26) and not rel:
            continue
        if sc.get('release') is not None and sc['release'] != rel or sc.get('trap') and rel:
            continue
        for layout in ('align', 'end'):
            r = variant(script, sc, lib, layout, symf, timeout)
            if r:
                return '%s (%s build)' % (r, 'release' if rel else 'debug')
    return None


def main():
    if sys.argv[1] == '--child':
        try:
            child(*sys.argv[2:6])
        except Exception:
            traceback.print_exc()
            os._exit(3)
    try:
        sc = json.load(open(sys.argv[1]))
        if sc.get('tool') == 'trace':
            sys.path.insert(0, os.path.join(HERE, 'engine'))
            import ctrace
            r = ctrace.replay(sc)
        else:
            r = replay(sys.argv[1])
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    if r:
        print('reproduced: ' + r)
        sys.exit(1)
    print('not reproduced')
    sys.exit(0)


if __name__ == '__main__':
    main()
