"""An FTP server over an in-memory tree, on the loopback address only.

Faults: fault = (k, kind): the k-th command (from the moment it is armed) is
refused with a permanent (550) or transient (451) error, or the connection is
dropped; 'data' drops the data connection of the k-th command (if a STOR) half
way, leaving what a real server leaves: a truncated file under the name given
to STOR.
"""
import socket
import threading


class Server(object):
    def __init__(self):
        self.files = {}          # absolute path -> bytes
        self.dirs = {'/'}
        self.users = {}          # user -> password; anonymous always allowed unless noanon
        self.noanon = False
        self.logins = []
        self.lock = threading.RLock()
        self.fault = None
        self.count = 0
        self.fired = False
        self.look = None         # called after every command
        self.log = []
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(20)
        self.port = self.s.getsockname()[1]
        self.stop = False
        threading.Thread(target=self._accept, daemon=True).start()

    def close(self):
        self.stop = True
        try:
            self.s.close()
        except OSError:
            pass

    def _accept(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    @staticmethod
    def norm(cwd, p):
        parts = [] if p.startswith('/') else [x for x in cwd.split('/') if x]
        for x in p.split('/'):
            if x in ('', '.'):
                continue
            if x == '..':
                parts = parts[:-1]
            else:
                parts.append(x)
        return '/' + '/'.join(parts)

    @staticmethod
    def parent(p):
        return p.rsplit('/', 1)[0] or '/'

    def put(self, path, data):
        with self.lock:
            d = self.parent(path)
            while d != '/':
                self.dirs.add(d)
                d = self.parent(d)
            self.files[path] = data

    def rm(self, path):
        with self.lock:
            del self.files[path]
            d = self.parent(path)
            while d != '/' and d not in self.keep and not any(
                    x != d and x.startswith(d + '/') for x in list(self.files) + list(self.dirs)):
                self.dirs.discard(d)
                d = self.parent(d)

    keep = ()

    def _serve(self, c):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self._session(c)
        except (OSError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def _session(self, c):
        f = c.makefile('rb')

        def say(t):
            c.sendall((t + '\r\n').encode('utf-8'))
        say('220 ready')
        cwd, user, logged, pasv, rnfr = '/', None, False, None, None
        while True:
            line = f.readline()
            if not line:
                return
            line = line.decode('utf-8', 'replace').rstrip('\r\n')
            cmd, _, arg = line.partition(' ')
            cmd = cmd.upper()
            self.log.append(line)
            kind = None
            if self.fault:
                if self.count == self.fault[0]:
                    kind = self.fault[1]
                    self.fired = True
                self.count += 1
            if kind == 'drop':
                c.shutdown(socket.SHUT_RDWR)
                return
            if kind in ('perm', 'temp') and cmd not in ('PASV', 'EPSV'):
                rep = '550 refused' if kind == 'perm' else '451 try again'
                if cmd == 'STOR' and pasv:
                    pasv.close()
                    pasv = None
                say(rep)
                continue
            with self.lock:
                if cmd == 'USER':
                    user = arg
                    if arg == 'anonymous' and not self.noanon or arg in self.users:
                        say('331 password')
                    else:
                        say('530 no')
                elif cmd == 'PASS':
                    if (user == 'anonymous' and not self.noanon) or (user in self.users and self.users[user] == arg):
                        logged = True
                        self.logins.append(user)
                        say('230 in')
                    else:
                        say('530 no')
                elif cmd == 'QUIT':
                    say('221 bye')
                    if self.look:
                        self.look()
                    return
                elif not logged:
                    say('530 log in')
                elif cmd == 'CWD':
                    p = self.norm(cwd, arg)
                    if p in self.dirs:
                        cwd = p
                        say('250 ok')
                    else:
                        say('550 no such directory')
                elif cmd == 'CDUP':
                    cwd = self.parent(cwd)
                    say('250 ok')
                elif cmd == 'PWD':
                    say('257 "%s"' % cwd.replace('"', '""'))
                elif cmd == 'MKD':
                    p = self.norm(cwd, arg)
                    if p in self.dirs or p in self.files or self.parent(p) not in self.dirs:
                        say('550 cannot')
                    else:
                        self.dirs.add(p)
                        say('257 "%s"' % p.replace('"', '""'))
                elif cmd == 'TYPE' or cmd == 'NOOP' or cmd == 'OPTS' or cmd == 'MODE' or cmd == 'STRU':
                    say('200 ok')
                elif cmd in ('PASV', 'EPSV'):
                    if pasv:
                        pasv.close()
                    pasv = socket.socket()
                    pasv.bind(('127.0.0.1', 0))
                    pasv.listen(1)
                    pasv.settimeout(30)
                    n = pasv.getsockname()[1]
                    say('227 (127,0,0,1,%d,%d)' % (n // 256, n % 256) if cmd == 'PASV' else '229 (|||%d|)' % n)
                elif cmd == 'STOR':
                    p = self.norm(cwd, arg)
                    if p in self.dirs or self.parent(p) not in self.dirs or pasv is None:
                        if pasv:
                            pasv.close()
                            pasv = None
                        say('550 cannot store')
                    else:
                        self.files[p] = b''
                        if self.look:
                            self.look()
                        say('150 go')
                        d, _ = pasv.accept()
                        pasv.close()
                        pasv = None
                        d.settimeout(30)
                        data = b''
                        while True:
                            b = d.recv(1 << 16)
                            if not b:
                                break
                            data += b
                            self.files[p] = data
                            if self.look and len(data) < 200000:
                                self.look()
                        d.close()
                        if kind == 'data':
                            self.files[p] = data[:len(data) // 2]
                            say('426 aborted')
                        else:
                            say('226 stored')
                elif cmd == 'RNFR':
                    p = self.norm(cwd, arg)
                    if p in self.files or p in self.dirs:
                        rnfr = p
                        say('350 go')
                    else:
                        say('550 no such file')
                elif cmd == 'RNTO':
                    p = self.norm(cwd, arg)
                    if rnfr is None or p in self.dirs or self.parent(p) not in self.dirs or rnfr not in self.files:
                        say('550 cannot rename')
                    else:
                        self.files[p] = self.files.pop(rnfr)
                        say('250 ok')
                    rnfr = None
                elif cmd == 'DELE':
                    p = self.norm(cwd, arg)
                    if p in self.files:
                        del self.files[p]
                        say('250 ok')
                    else:
                        say('550 no such file')
                elif cmd == 'RMD':
                    p = self.norm(cwd, arg)
                    if p in self.dirs and not any(x.startswith(p + '/') for x in list(self.files) + list(self.dirs)):
                        self.dirs.discard(p)
                        say('250 ok')
                    else:
                        say('550 cannot')
                elif cmd == 'SIZE':
                    p = self.norm(cwd, arg)
                    say('213 %d' % len(self.files[p]) if p in self.files else '550 no')
                elif cmd in ('NLST', 'LIST'):
                    p = self.norm(cwd, arg if arg and not arg.startswith('-') else '')
                    names = sorted({x[len(p.rstrip('/')) + 1:].split('/')[0] for x in list(self.files) + list(self.dirs)
                                    if x.startswith(p.rstrip('/') + '/')} - {''})
                    if pasv is None:
                        say('425 no data connection')
                    else:
                        say('150 list')
                        d, _ = pasv.accept()
                        pasv.close()
                        pasv = None
                        d.sendall(''.join(n + '\r\n' for n in names).encode())
                        d.close()
                        say('226 ok')
                else:
                    say('502 not implemented')
                if self.look:
                    self.look()
