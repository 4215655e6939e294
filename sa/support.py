"""Stand-ins for files, analysed together with the package (never executed)."""


class Sink:
    """a file that can only be written to"""
    def __init__(self, fail_at=-1):
        self.parts = []
        self.fail_at = fail_at

    def write(self, data):
        if len(self.parts) == self.fail_at:
            raise OSError('full')
        self.parts.append(bytes(data))
        return len(data)


class Pipe(Sink):
    """a file that can be written to, and nothing else works"""
    def flush(self):
        raise OSError('flush')

    def seek(self, pos, how=0):
        raise OSError('seek')

    def tell(self):
        raise OSError('tell')

    def truncate(self, n=None):
        raise OSError('truncate')

    def read(self, n=-1):
        raise OSError('read')

    def close(self):
        raise OSError('close')

    def seekable(self):
        return False

    def readable(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError('fileno')

    def isatty(self):
        return False


class Source:
    """a file that can only be read"""
    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r


def sink_bytes(s):
    return b''.join(s.parts)


class Disk:
    """a file with earlier contents, open at some place, that can be read, written and moved in"""
    def __init__(self, data, pos):
        self.data = data
        self.pos = pos

    def write(self, data):
        data = bytes(data)
        self.data = self.data[:self.pos] + data + self.data[self.pos + len(data):]
        self.pos += len(data)
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def seek(self, pos, how=0):
        if how == 1:
            pos += self.pos
        if how == 2:
            pos += len(self.data)
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        if n is None:
            n = self.pos
        self.data = self.data[:n]
        return n

    def flush(self):
        return None

    def close(self):
        return None

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return True

    def getvalue(self):
        return self.data


def disk_bytes(s):
    return s.data


def crossed(t):
    """one iteration within another over the same track"""
    whole = list(t)
    return [(x, y) for x in t for y in t] == [(x, y) for x in whole for y in whole]
