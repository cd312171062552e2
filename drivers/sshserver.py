"""A real SSH server (paramiko) on the loopback address.

Commands run under /bin/sh as the unprivileged user this process already is,
in the scratch directory; scp is the installed scp.

fault = (k, kind): the k-th exec request since arming fails: 'exit' (not run,
exit status 1), 'drop' (connection dropped before it runs), 'cut' (the
connection is dropped after half of the bytes the client sends).
"""
import os
import socket
import subprocess
import threading
import time

import paramiko

_HOSTKEY = None


def hostkey():
    global _HOSTKEY
    if _HOSTKEY is None:
        _HOSTKEY = paramiko.ECDSAKey.generate()
    return _HOSTKEY


class _Iface(paramiko.ServerInterface):
    def __init__(self, srv):
        self.srv = srv

    def check_channel_request(self, kind, chanid):
        return paramiko.OPEN_SUCCEEDED if kind == 'session' else paramiko.OPEN_FAILED_ADMINISTRATIVELY_PROHIBITED

    def check_auth_publickey(self, username, key):
        if username in self.srv.users and key.get_base64() in self.srv.keys:
            self.srv.logins.append(username)
            return paramiko.AUTH_SUCCESSFUL
        return paramiko.AUTH_FAILED

    def get_allowed_auths(self, username):
        return 'publickey'

    def check_channel_exec_request(self, channel, command):
        channel._vf_exec = (self.srv, command)
        return True


_handle = paramiko.Channel._handle_request


def _handle_request(self, m):
    # start a command only after the reply to its request has been sent
    _handle(self, m)
    job = self.__dict__.pop('_vf_exec', None)
    if job:
        threading.Thread(target=job[0].run, args=(self, job[1]), daemon=True).start()


for _k, _f in list(paramiko.Transport._channel_handler_table.items()):
    if _f is _handle:
        paramiko.Transport._channel_handler_table[_k] = _handle_request


class Server(object):
    def __init__(self, cwd):
        self.cwd = cwd
        self.users = set()
        self.keys = set()
        self.logins = []
        self.log = []
        self.look = None
        self.fault = None
        self.count = 0
        self.transports = []
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(20)
        self.port = self.s.getsockname()[1]
        self.stop = False
        self.running = 0
        self.lock = threading.Lock()
        threading.Thread(target=self._accept, daemon=True).start()

    def close(self):
        self.stop = True
        try:
            self.s.close()
        except OSError:
            pass
        for t in self.transports:
            try:
                t.close()
            except Exception:
                pass

    def _accept(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            try:
                c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                t = paramiko.Transport(c)
                t.add_server_key(hostkey())
                self.transports.append(t)
                t.start_server(event=threading.Event(), server=_Iface(self))
            except Exception:
                pass

    def drop(self):
        for t in self.transports:
            try:
                t.close()
            except Exception:
                pass
        self.transports = []

    def run(self, chan, command):
        with self.lock:
            self.running += 1
        try:
            self._run(chan, command)
        except Exception:
            try:
                chan.close()
            except Exception:
                pass
        finally:
            with self.lock:
                self.running -= 1

    def quiet(self):
        """wait until no remote command is running any more"""
        t = time.time()
        while self.running and time.time() - t < 30:
            time.sleep(0.002)

    def _run(self, chan, command):
        cmd = command.decode('utf-8', 'surrogateescape')
        self.log.append(cmd)
        kind = None
        if self.fault:
            if self.count == self.fault[0]:
                kind = self.fault[1]
            self.count += 1
        if kind == 'drop':
            self.drop()
            return
        if kind == 'exit':
            chan.send_stderr(b'refused\n')
            chan.send_exit_status(1)
            chan.shutdown_write()
            chan.close()
            return
        p = subprocess.Popen(['/bin/sh', '-c', cmd], cwd=self.cwd, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0,
                             env={'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': self.cwd})
        if self.look:
            self.look()

        def pump_in():
            n = 0
            try:
                while True:
                    b = chan.recv(4096)
                    if not b:
                        break
                    n += len(b)
                    if kind == 'cut' and n > 300:
                        self.drop()
                        break
                    p.stdin.write(b)
                    if self.look:
                        self.look()
            except Exception:
                pass
            try:
                p.stdin.close()
            except OSError:
                pass
        ti = threading.Thread(target=pump_in, daemon=True)
        ti.start()

        def pump(src, dst):
            try:
                while True:
                    b = os.read(src.fileno(), 65536)
                    if not b:
                        break
                    dst(b)
            except Exception:
                pass
        te = threading.Thread(target=pump, args=(p.stderr, chan.sendall_stderr), daemon=True)
        te.start()
        pump(p.stdout, chan.sendall)
        te.join(20)
        rc = p.wait()
        if self.look:
            self.look()
        p.stdout.close()
        p.stderr.close()
        if not chan.closed:
            chan.send_exit_status(rc if rc >= 0 else 128)
            chan.shutdown_write()
            chan.close()


_orig = paramiko.SSHClient.connect


def redirect(port):
    def connect(self, hostname, port_=22, *a, **kw):
        kw.pop('port', None)
        if not kw.get('sock'):
            kw['sock'] = socket.create_connection((hostname, port), timeout=30)
            kw['sock'].setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return _orig(self, hostname, port, *a, **kw)
    paramiko.SSHClient.connect = connect


def client_files(home, port):
    """a private key and a known_hosts file; returns (key path, base64)"""
    d = os.path.join(home, '.ssh')
    os.makedirs(d, exist_ok=True)
    kp = os.path.join(d, 'id')
    if not os.path.exists(kp):
        k = paramiko.ECDSAKey.generate()
        k.write_private_key_file(kp)
    k = paramiko.ECDSAKey(filename=kp)
    hk = hostkey()
    with open(os.path.join(d, 'known_hosts'), 'w') as f:
        f.write('[127.0.0.1]:%d %s %s\n' % (port, hk.get_name(), hk.get_base64()))
    return kp, k.get_base64()
