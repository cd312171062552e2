"""SMTP servers on 127.0.0.1, .2, .3 ... sharing a port, with failure modes."""
import socket
import threading


class Server(object):
    def __init__(self, n):
        self.n = n
        self.modes = ['up'] * n
        self.mail = []           # (server index, sender, [rcpts], bytes)
        self.refused = None
        self.lock = threading.Lock()
        self.socks = []
        for attempt in range(50):
            socks = []
            try:
                s = socket.socket()
                s.bind((self.host(0), 0))
                port = s.getsockname()[1]
                socks.append(s)
                for i in range(1, n):
                    s = socket.socket()
                    socks.append(s)
                    s.bind((self.host(i), port))
                break
            except OSError:
                for s in socks:
                    s.close()
        else:
            raise OSError('no port')
        self.port = port
        self.socks = socks
        for i, s in enumerate(socks):
            s.listen(20)
            threading.Thread(target=self._accept, args=(i, s), daemon=True).start()

    def host(self, i):
        return '127.0.0.%d' % (88, 7, 160, 55, 3, 214, 41)[i]       # in no other order

    def hosts(self):
        return [self.host(i) for i in range(self.n)]

    def close(self):
        for s in self.socks:
            try:
                s.close()
            except OSError:
                pass

    def _accept(self, i, s):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            threading.Thread(target=self._safe, args=(i, c), daemon=True).start()

    def _safe(self, i, c):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self._serve(i, c)
        except (OSError, ValueError):
            pass
        finally:
            c.close()

    def _serve(self, i, c):
        mode = self.modes[i]
        if mode == 'down':
            return
        f = c.makefile('rb')

        def say(t):
            c.sendall(t.encode() + b'\r\n')
        if mode == 'busy':
            say('421 busy')
            return
        say('220 test')
        sender, rcpts = None, []
        while True:
            line = f.readline()
            if not line:
                return
            up = line.strip().upper()
            if up.startswith((b'HELO', b'EHLO')):
                if mode == 'nohelo':
                    say('501 no')
                else:
                    say('250 test')
            elif up.startswith(b'MAIL FROM:'):
                if mode in ('nosender', 'nohelo'):
                    say('550 sender refused')
                else:
                    sender, rcpts = self._addr(line), []
                    say('250 ok')
            elif up.startswith(b'RCPT TO:'):
                a = self._addr(line)
                if a == '' or mode == 'norcpt':
                    say('550 refused')
                elif mode == 'picky' and a == self.refused:
                    say('550 refused')
                else:
                    rcpts.append(a)
                    say('250 ok')
            elif up == b'DATA':
                if mode == 'nodata':
                    say('554 no')
                    continue
                if not rcpts:
                    say('503 no recipients')
                    continue
                say('354 go')
                body = b''
                while True:
                    b = f.readline()
                    if not b:
                        return
                    if b == b'.\r\n':
                        break
                    if b.startswith(b'.'):
                        b = b[1:]
                    body += b
                if mode == 'baddata':
                    say('552 too much mail data')
                    continue
                if mode == 'datadrop':
                    return
                with self.lock:
                    self.mail.append((i, sender, rcpts, body))
                say('250 accepted')
                if mode == 'quitdrop':
                    return
            elif up == b'RSET':
                rcpts = []
                say('250 ok')
            elif up == b'QUIT':
                say('221 bye')
                return
            elif up == b'NOOP':
                say('250 ok')
            else:
                say('502 what')

    @staticmethod
    def _addr(line):
        t = line.decode('utf-8', 'replace').split(':', 1)[1].strip()
        if '<' in t:
            t = t[t.index('<') + 1:t.rindex('>')]
        else:
            t = t.split(' ')[0]
        return t
