"""Builds the pingos nginx modules (and C++ harnesses) from /repo's current working tree.

Flavours:
  plain : gcc -g -O1              (what the shipped build uses)
  asan  : gcc -g -O1 -fsanitize=address, pool allocations individually malloc'ed
          (see lib/asan_pool.h) so that over-reads of a single allocation are visible
Everything is put in /verif/build (git-ignored); nothing in /repo is written.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
BUILD = os.environ.get('PV_BUILD', os.path.join(VERIF, 'build'))
SRC = '/usr/share/nginx/src'


def _files(root, exts=None):
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if exts is None or f.endswith(exts) or f == 'config':
                yield os.path.join(d, f)


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def src_hash():
    return _hash(list(_files(os.path.join(REPO, 'modules'), ('.c', '.h', '.cc'))))


CC = {
    'plain': '-g -O1 -Wno-error -w',
    'asan': '-g -O1 -Wno-error -w -fsanitize=address -fno-omit-frame-pointer '
            '-include %s/lib/asan_pool.h' % VERIF,
}
LD = {'plain': '', 'asan': '-fsanitize=address'}


class BuildError(Exception):
    pass


def _run(cmd, cwd, log):
    with open(log, 'ab') as f:
        r = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, shell=isinstance(cmd, str),
                           env=dict(os.environ, LC_ALL='C'))
    if r.returncode != 0:
        raise BuildError('%s failed, see %s\n%s' % (cmd, log, open(log, errors='replace').read()[-3000:]))


def configure(flavour):
    """nginx ./configure for the flavour; returns its directory"""
    cfgs = [os.path.join(VERIF, 'shim', 'collect.sh'), os.path.join(VERIF, 'shim', 'pingos', 'config'),
            SRC + '/conf_flags'] + [p for p in _files(os.path.join(REPO, 'modules')) if p.endswith('/config')]
    key = _hash(cfgs) + CC[flavour] + LD[flavour] + REPO
    d = os.path.join(BUILD, flavour)
    stamp = os.path.join(d, '.stamp')
    if os.path.exists(stamp) and open(stamp).read() == key:
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in ('auto', 'configure', 'src'):
        os.symlink(os.path.join(SRC, n), os.path.join(d, n))
    os.mkdir(os.path.join(d, 'objs'))
    script = r'''
set -e
. /usr/share/nginx/src/conf_flags
export PV_REPO=%s
./configure "${NGX_CONF_FLAGS[@]}" --with-cc=gcc --with-cc-opt='%s' %s \
  --add-dynamic-module=%s/shim/pingos --add-dynamic-module=%s/modules/nginx-ts-module
P=$(cat objs/pingos.name)
cat > vp.mk <<EOT
vp-default: vp-build
include objs/Makefile
vp-build: objs/$P.so objs/ngx_http_ts_module.so
EOT
''' % (REPO, CC['plain'], '', VERIF, REPO)
    # configure always runs with the plain flags (its probes must not be sanitized); the
    # flavour's flags are put into the generated Makefile afterwards
    _run(['bash', '-c', script], d, os.path.join(d, 'build.log'))
    mk = os.path.join(d, 'objs', 'Makefile')
    s = open(mk).read()
    if CC['plain'] not in s:
        raise BuildError('cc flags not found in generated Makefile')
    s = s.replace(CC['plain'], CC[flavour])
    if LD[flavour]:
        s = s.replace('-shared', '-shared ' + LD[flavour])
    open(mk, 'w').write(s)
    open(stamp, 'w').write(key)
    return d


def modules(flavour='plain'):
    """build the .so modules; returns list of .so paths"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = configure(flavour)
        extra = [os.path.join(VERIF, 'lib', 'asan_pool.h')] if flavour == 'asan' else []
        h = src_hash() + (_hash(extra) if extra else '')
        built = os.path.join(d, '.built')
        name = open(os.path.join(d, 'objs', 'pingos.name')).read().strip()
        sos = [os.path.join(d, 'objs', name + '.so'), os.path.join(d, 'objs', 'ngx_http_ts_module.so')]
        if not (os.path.exists(built) and open(built).read() == h and all(os.path.exists(s) for s in sos)):
            if os.path.exists(built):
                os.unlink(built)
            _run(['make', '-B', '-f', 'vp.mk', '-j8', 'vp-build'], d, os.path.join(d, 'build.log'))
            open(built, 'w').write(h)
        return sos


def probe(flavour, name):
    """build harness/<name>.c as an nginx module next to the modules; returns its .so"""
    modules(flavour)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = configure(flavour)
        src = os.path.join(VERIF, 'harness', name + '.c')
        so = os.path.join(d, 'objs', name + '.so')
        h = src_hash() + _hash([src])
        built = os.path.join(d, '.built.' + name)
        if not (os.path.exists(so) and os.path.exists(built) and open(built).read() == h):
            mk = os.path.join(d, 'probe.mk')
            with open(mk, 'w') as f:
                f.write('pv-default: pv-so\ninclude objs/Makefile\npv-so:\n\t$(CC) -shared -fPIC $(CFLAGS) $(ALL_INCS) %s -o %s %s\n' % (LD[flavour], so, src))
            _run(['make', '-B', '-f', 'probe.mk', 'pv-so'], d, os.path.join(d, 'probe.log'))
            open(built, 'w').write(h)
        return so


if __name__ == '__main__':
    for fl in (sys.argv[1:] or ['plain', 'asan']):
        print(fl, modules(fl))
