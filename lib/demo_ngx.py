"""Runs a private nginx with the modules built in /repo (used by demonstrations only)."""
import glob, os, shutil, socket, subprocess, tempfile, time


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Nginx:
    def __init__(self, rtmp='', http='', events='', top='', workers=1, ts=False, repo=None, log_level='error'):
        self.dir = tempfile.mkdtemp(prefix='pd.', dir='/tmp')
        os.chmod(self.dir, 0o755)
        objs = (repo or os.getcwd()) + '/_build/nginx/objs/'
        name = open(objs + 'pingos.name').read().strip()
        conf = 'load_module %s%s.so;\n' % (objs, name)
        if ts:
            conf += 'load_module %sngx_http_ts_module.so;\n' % objs
        conf += 'user root;\ndaemon off;\nworker_processes %d;\nerror_log %s/error.log %s;\npid %s/nginx.pid;\nworking_directory %s;\n' % (
            workers, self.dir, log_level, self.dir, self.dir)
        conf += top.replace('@DIR@', self.dir)
        conf += 'events {\n worker_connections 1024;\n%s\n}\n' % events.replace('@DIR@', self.dir)
        if rtmp:
            conf += 'rtmp {\n%s\n}\n' % rtmp.replace('@DIR@', self.dir)
        paths = ''.join(' %s %s/%s;\n' % (d, self.dir, d) for d in
                        ('client_body_temp_path', 'proxy_temp_path', 'fastcgi_temp_path', 'uwsgi_temp_path', 'scgi_temp_path'))
        conf += 'http {\n access_log off;\n%s%s\n}\n' % (paths, http.replace('@DIR@', self.dir))
        open(self.dir + '/nginx.conf', 'w').write(conf)
        self.proc = None

    def start(self, ports=()):
        self.proc = subprocess.Popen(['/usr/sbin/nginx', '-e', self.dir + '/error.log', '-p', self.dir + '/', '-c', self.dir + '/nginx.conf'],
                                     stdin=subprocess.DEVNULL, stdout=open(self.dir + '/stderr', 'ab'), stderr=subprocess.STDOUT, start_new_session=True)
        end = time.monotonic() + 15
        for p in ports:
            while True:
                try:
                    socket.create_connection(('127.0.0.1', p), 2).close()
                    break
                except OSError:
                    if time.monotonic() > end:
                        raise RuntimeError('nginx does not listen: ' + open(self.dir + '/stderr').read()[-600:])
                    time.sleep(0.02)
        return self

    def log(self):
        return open(self.dir + '/error.log', errors='replace').read()

    def crashed(self):
        return any('exited on signal' in l and 'signal 9' not in l and 'signal 15' not in l for l in self.log().splitlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.proc:
            self.proc.terminate()
            try:
                self.proc.wait(3)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(self.proc.pid, 9)
            except OSError:
                pass
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
