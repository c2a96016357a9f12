"""In-process harnesses: small C programs around pingos sources, linked with the nginx binary itself
(as a shared library), driven over stdin/stdout by a Python reference model."""
import fcntl, os, select, struct, subprocess, tempfile, time
from . import build

INC = ['modules/nginx-toolkit-module', 'modules/nginx-client-module', 'modules/nginx-multiport-module', 'modules/nginx-rtmp-module',
       'modules/nginx-rtmp-module/json', 'modules/nginx-rtmp-module/http', 'modules/nginx-rtmp-module/hls', 'modules/nginx-ts-module/src']


def libnginx():
    """a linkable copy of the nginx executable"""
    out = os.path.join(build.BUILD, 'lib', 'libnginx.so')
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    b = bytearray(open('/usr/sbin/nginx', 'rb').read())
    phoff, = struct.unpack_from('<Q', b, 32)
    phes, phn = struct.unpack_from('<HH', b, 54)
    done = False
    for i in range(phn):
        typ, fl, off, va, pa, fsz = struct.unpack_from('<IIQQQQ', b, phoff + i * phes)
        if typ == 2:
            for o in range(off, off + fsz, 16):
                tag, val = struct.unpack_from('<QQ', b, o)
                if tag == 0x6ffffffb:
                    struct.pack_into('<Q', b, o + 8, val & ~0x08000000)
                    done = True
    assert done
    with open(out + '.tmp', 'wb') as f:
        f.write(b)
    os.chmod(out + '.tmp', 0o755)
    os.rename(out + '.tmp', out)
    return out


def make(name, sources=(), asan=True, defs='', ts=False):
    """compile harness/<name>.c against the modules built from /repo (and further /repo sources); returns the executable"""
    mods = build.modules('asan' if asan else 'plain')
    mods = mods if ts else mods[:1]
    os.makedirs(build.BUILD, exist_ok=True)
    with open(os.path.join(build.BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = build.configure('asan' if asan else 'plain')
        lib = libnginx()
        src = os.path.join(build.VERIF, 'harness', name + '.c')
        hs = [os.path.join(build.VERIF, 'harness', f) for f in sorted(os.listdir(os.path.join(build.VERIF, 'harness')))] + [build.VERIF + '/lib/asan_pool.h']
        key = build.src_hash() + build._hash(hs + [__file__]) + defs + str(asan) + ' '.join(sources) + ' '.join(mods)
        out = os.path.join(build.BUILD, 'lib', name)
        if os.path.exists(out) and os.path.exists(out + '.key') and open(out + '.key').read() == key:
            return out
        N = '/usr/share/nginx/src/src/'
        inc = ['-I' + os.path.join(d, 'objs'), '-I' + build.VERIF + '/harness'] + ['-I' + N + x for x in ('core', 'event', 'event/modules', 'os/unix', 'http', 'http/modules', 'http/v2', 'stream')] + \
              ['-I' + os.path.join(build.REPO, x) for x in INC]
        san = ['-fsanitize=address', '-fno-omit-frame-pointer', '-include', build.VERIF + '/lib/asan_pool.h'] if asan else []
        if os.path.exists(out + '.key'):
            os.unlink(out + '.key')
        cmd = ['gcc', '-g', '-O1', '-w', '-fPIC', '-D_GNU_SOURCE'] + san + defs.split() + inc + [src] + [os.path.join(build.REPO, s) for s in sources] + \
              mods + ['-o', out, '-L' + os.path.dirname(lib), '-l:libnginx.so', '-Wl,-rpath,' + os.path.dirname(lib), '-Wl,-rpath,' + os.path.dirname(mods[0]), '-Wl,--allow-shlib-undefined', '-lm', '-ldl', '-lpthread', '-lcrypt']
        log = out + '.log'
        if os.path.exists(log):
            os.unlink(log)
        build._run(cmd, build.VERIF, log)
        open(out + '.key', 'w').write(key)
        return out


class Died(Exception):
    pass


class Proc:
    """a harness process; ask(line) -> reply line"""

    def __init__(self, exe, args=(), cwd=None, env=None, timeout=6.0):
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', LC_ALL='C')
        e.update(env or {})
        self.p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=cwd, env=e)
        self.buf = b''
        self.timeout = timeout

    def stderr(self):
        self.err.seek(0)
        t = self.err.read().decode(errors='replace')
        i = t.find('ERROR: AddressSanitizer')
        return t[i:i + 1500] if i >= 0 else t[-800:]

    def readline(self):
        end = time.monotonic() + self.timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            r = select.select([fd], [], [], max(0, left))[0]
            if not r:
                bt = ''
                self.p.kill()
                self.p.wait()
                raise Died('no answer in %g s (hang)' % self.timeout)
            x = os.read(fd, 1 << 20)
            if not x:
                self.p.wait()
                raise Died('process ended (%s): %s' % (self.p.returncode, self.stderr()))
            self.buf += x
        l, _, self.buf = self.buf.partition(b'\n')
        return l.decode('latin-1')

    def ask(self, line):
        try:
            self.p.stdin.write(line.encode('latin-1') + b'\n')
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.p.wait()
            raise Died('process ended (%s): %s' % (self.p.returncode, self.stderr()))
        return self.readline()

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
        except OSError:
            pass
        self.err.close()
