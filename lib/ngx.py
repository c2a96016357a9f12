"""Runs a private nginx with the freshly built pingos modules."""
import glob, os, shutil, signal, socket, subprocess, tempfile, time
from . import build

_ports_used = set()


def free_port():
    while True:
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        p = s.getsockname()[1]
        s.close()
        if p not in _ports_used:
            _ports_used.add(p)
            return p


def _libasan():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()


class NginxDied(Exception):
    pass


class Nginx:
    """conf: text with {dir} {port:NAME} style placeholders already substituted by the caller.
    top: main-context directives, rtmp: inside rtmp{}, http: inside http{}, events: inside events{}"""

    def __init__(self, rtmp='', http='', events='', top='', workers=1, flavour='plain', master=True,
                 log_level='info', env=None, ts=False, user='root', wrap=(), probes=()):
        self.dir = tempfile.mkdtemp(prefix='pv.', dir='/tmp')
        os.chmod(self.dir, 0o755 if user == 'root' else 0o777)
        self.flavour = flavour
        self.wrap = list(wrap)      # command prefix
        sos = build.modules(flavour)
        if not ts:
            sos = sos[:1]
        sos = list(sos) + [build.probe(flavour, x) for x in probes]
        self.log = os.path.join(self.dir, 'error.log')
        conf = ''.join('load_module %s;\n' % s for s in sos)
        conf += 'user ' + user + ';\ndaemon off;\nmaster_process %s;\nworker_processes %d;\n' % ('on' if master else 'off', workers)
        conf += 'error_log %s %s;\npid %s/nginx.pid;\nworking_directory %s;\n' % (self.log, log_level, self.dir, self.dir)
        conf += top.replace('@DIR@', self.dir)
        conf += 'events {\n worker_connections 4096;\n%s\n}\n' % events.replace('@DIR@', self.dir)
        if rtmp is not None:
            conf += 'rtmp {\n%s\n}\n' % rtmp.replace('@DIR@', self.dir)
        paths = ''.join(' %s %s/%s;\n' % (d, self.dir, d) for d in
                        ('client_body_temp_path', 'proxy_temp_path', 'fastcgi_temp_path', 'uwsgi_temp_path', 'scgi_temp_path'))
        conf += 'http {\n access_log off;\n%s%s\n}\n' % (paths, http.replace('@DIR@', self.dir))
        self.conf = os.path.join(self.dir, 'nginx.conf')
        with open(self.conf, 'w') as f:
            f.write(conf)
        self.env = dict(os.environ, LC_ALL='C')
        if env:
            self.env.update(env)
        if flavour == 'asan':
            self.env['LD_PRELOAD'] = _libasan()
            self.env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:handle_segv=1:log_path=%s/asan:'
                                        'detect_odr_violation=0:disable_coredump=1:allocator_may_return_null=1' % self.dir)
        self.proc = None

    def start(self, wait_ports=(), timeout=20):
        self.err = open(os.path.join(self.dir, 'stderr'), 'ab')
        self.proc = subprocess.Popen(self.wrap + ['/usr/sbin/nginx', '-e', self.log, '-p', self.dir + '/', '-c', self.conf], env=self.env,
                                     stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL, start_new_session=True)
        end = time.monotonic() + timeout
        for p in wait_ports:
            while True:
                if self.proc.poll() is not None:
                    raise NginxDied('nginx did not start: ' + self.tail())
                try:
                    if isinstance(p, str):
                        s = socket.socket(socket.AF_UNIX)
                        s.settimeout(2)
                        s.connect(p)
                    else:
                        s = socket.create_connection(('127.0.0.1', p), 2)
                    s.close()
                    break
                except OSError:
                    if time.monotonic() > end:
                        raise NginxDied('nginx did not listen: ' + self.tail())
                    time.sleep(0.01)
        return self

    def tail(self, n=3000):
        out = ''
        for p in (os.path.join(self.dir, 'stderr'), self.log):
            try:
                out += open(p, errors='replace').read()[-n:]
            except OSError:
                pass
        return out

    def crashes(self):
        """lines / files that show a worker crash"""
        out = []
        for p in glob.glob(os.path.join(self.dir, 'asan.*')):
            out.append(open(p, errors='replace').read()[:1800])
        try:
            with open(self.log, errors='replace') as f:
                for l in f:
                    if 'exited on signal' in l and not any(('signal %d' % s) in l for s in (9, 15)):
                        out.append(l.strip())
                    elif 'worker process' in l and 'exited with fatal code' in l:
                        out.append(l.strip())
        except OSError:
            pass
        return out

    def worker_pids(self):
        r = subprocess.run(['pgrep', '-P', str(self.proc.pid)], capture_output=True, text=True)
        return [int(x) for x in r.stdout.split()]

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def signal(self, sig):
        os.kill(self.proc.pid, sig)

    def stop(self, keep=False):
        if self.proc is not None and self.proc.poll() is None:
            try:
                self.proc.send_signal(signal.SIGTERM)
                self.proc.wait(3)
            except subprocess.TimeoutExpired:
                pass
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                self.proc.wait(3)
            except subprocess.TimeoutExpired:
                pass
            self.proc = None
            self.err.close()
        if not keep and not os.environ.get("PV_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()
