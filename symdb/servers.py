"""Private PostgreSQL and MariaDB servers on unix sockets in a scratch directory, for replays."""
import os
import shutil
import signal
import subprocess
import tempfile
import time
import pwd

PG = '/usr/lib/postgresql/16/bin'


class Servers(object):
    def __init__(self):
        self.dir = None
        self.pg = False
        self.my = None

    def base(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='denorm-verif.')
            os.chmod(self.dir, 0o755)
        return self.dir

    def env(self):
        e = dict(os.environ)
        e.update(LC_ALL='C.UTF-8', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        for k in ('PGHOST', 'PGPORT', 'PGUSER'):
            e.pop(k, None)
        return e

    def start_pg(self):
        d = os.path.join(self.base(), 'pg')
        if self.pg:
            return d
        for left in (2, 1, 0):
            try:
                return self.try_pg(d)
            except subprocess.CalledProcessError:
                self.stop_pg()
                shutil.rmtree(d, ignore_errors=True)
                if not left:
                    raise
                time.sleep(5)

    def try_pg(self, d):
        os.mkdir(d)
        u = pwd.getpwnam('postgres')
        os.chown(d, u.pw_uid, u.pw_gid)
        pre = ['env', 'HOME=' + d, 'setpriv', '--reuid=postgres', '--regid=postgres', '--clear-groups']
        subprocess.run(pre + [PG + '/initdb', '-D', 'data', '-A', 'trust', '-U', 'postgres', '-E', 'UTF8',
                              '--locale=C.UTF-8', '-N'], cwd=d, env=self.env(), check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        subprocess.run(pre + [PG + '/pg_ctl', '-D', 'data', '-l', os.path.join(d, 'log'), '-w', '-t', '120', '-o',
                              '-c listen_addresses= -c unix_socket_directories=%s -c fsync=off '
                              '-c full_page_writes=off -c statement_timeout=30s -c max_connections=60' % d, 'start'],
                       cwd=d, env=self.env(), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.pg = True
        return d

    def start_my(self):
        d = os.path.join(self.base(), 'my')
        sock = os.path.join(d, 'sock')
        if self.my is not None:
            return sock
        for left in (2, 1, 0):
            try:
                return self.try_my(d, sock)
            except (RuntimeError, subprocess.CalledProcessError):
                if self.my is not None:
                    self.my.kill()
                    self.my.wait()
                    self.my = None
                shutil.rmtree(d, ignore_errors=True)
                if not left:
                    raise
                time.sleep(5)

    def try_my(self, d, sock):
        os.mkdir(d)
        u = pwd.getpwnam('mysql')
        os.chown(d, u.pw_uid, u.pw_gid)
        subprocess.run(['mariadb-install-db', '--no-defaults', '--user=mysql', '--datadir=' + d + '/data',
                        '--auth-root-authentication-method=normal', '--skip-test-db',
                        '--innodb-use-native-aio=0'], env=self.env(), check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.my = subprocess.Popen(
            ['mariadbd', '--no-defaults', '--user=mysql', '--datadir=' + d + '/data', '--socket=' + sock,
             '--pid-file=' + d + '/pid', '--skip-networking', '--character-set-server=utf8mb4',
             '--innodb-flush-log-at-trx-commit=0', '--innodb-use-native-aio=0', '--max-statement-time=30', '--innodb-lock-wait-timeout=10',
             '--lock-wait-timeout=20'], env=self.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(480):
            if subprocess.run(['mariadb-admin', '--no-defaults', '-uroot', '-S', sock, 'ping'], env=self.env(),
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                return sock
            if self.my.poll() is not None:
                break
            time.sleep(0.25)
        raise RuntimeError('mariadbd did not start')

    def address(self, dialect):
        if dialect == 'postgresql':
            return self.start_pg()
        if dialect == 'mysql':
            return self.start_my()
        return self.base()

    def stop_pg(self):
        d = os.path.join(self.dir, 'pg')
        subprocess.run(['env', 'HOME=' + d, 'setpriv', '--reuid=postgres', '--regid=postgres', '--clear-groups',
                        PG + '/pg_ctl', '-D', d + '/data', '-m', 'immediate', '-w', 'stop'], cwd=d,
                       env=self.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def stop(self):
        if self.dir is None:
            return
        if self.pg:
            self.stop_pg()
        if self.my is not None:
            self.my.send_signal(signal.SIGTERM)
            try:
                self.my.wait(20)
            except subprocess.TimeoutExpired:
                self.my.kill()
                self.my.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None
