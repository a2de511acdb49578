"""C16: buffered streams hand out every received byte exactly once, in order."""

BufferedStream = repo('capnpy.buffered:BufferedStream')


class Chunks(BufferedStream):
    """a stream that receives the given chunks, then end of stream"""
    def __init__(self, chunks):
        super(Chunks, self).__init__()
        self.chunks = chunks
        self.k = 0

    def _readchunk(self):
        k = self.k
        if k >= len(self.chunks):
            return b''
        self.k = k + 1
        return self.chunks[k]


class Sock(object):
    """a socket from which the given chunks are received; remembers what was asked and sent"""
    def __init__(self, chunks):
        self.chunks = chunks
        self.k = 0
        self.asked = []
        self.sent = b''
        self.closed = 0

    def recv(self, n):
        self.asked.append(n)
        k = self.k
        if k >= len(self.chunks):
            return b''
        self.k = k + 1
        return self.chunks[k]

    def sendall(self, data):
        self.sent = self.sent + data

    def send(self, data):
        part = data[:(len(data) + 1) // 2]      # a socket may take less than everything
        self.sent = self.sent + part
        return len(part)

    def close(self):
        self.closed += 1


class Ref(object):
    """what the bytes are: content, and how much was handed out"""
    def __init__(self, content):
        self.content = content
        self.pos = 0

    def read(self, n=-1):
        a = self.pos
        b = len(self.content)
        if n == 0:
            return b''
        if n != -1 and a + n < b:
            b = a + n
        self.pos = b
        return self.content[a:b]

    def readline(self):
        a = self.pos
        j = self.content.find(b'\n', a)
        b = len(self.content) if j < 0 else j + 1
        self.pos = b
        return self.content[a:b]


def received(chunks):
    for c in chunks:
        requires(c is not None and 1 <= len(c) and len(c) <= 2**20)
    return b''.join(chunks)


def play(f, ops, sizes):
    out = []
    i = 0
    for op in ops:
        if op == 'r':
            out.append(f.read(sizes[i]))
            i += 1
        elif op == 'l':
            out.append(f.readline())
        else:
            out.append(f.read())
    return out


class buffered:
    """any mix of reads gives consecutive parts of what was received"""
    prop = 'C16'
    unroll = 6
    cases = tuple((n, ops) for n in (0, 1, 2) for ops in
                  ('r', 'l', 'a', 'rr', 'rl', 'lr', 'll', 'ra', 'la', 'rrr', 'lrl', 'rll')) + (
        (3, 'r'), (3, 'l'), (3, 'a'), (3, 'rr'), (3, 'll'), (3, 'rl'), (3, 'lr'))
    def spec(n, ops, c1: 'bytes', c2: 'bytes', c3: 'bytes', s1: 'u31', s2: 'u31', s3: 'u31'):
        chunks = [c1, c2, c3][:n]
        f = Ref(received(chunks))
        return play(f, ops, [s1, s2, s3])
    def impl(n, ops, c1, c2, c3, s1, s2, s3):
        chunks = [c1, c2, c3][:n]
        return play(Chunks(chunks), ops, [s1, s2, s3])


class socket:
    prop = 'C16'
    unroll = 6
    cases = ((1, 'rr'), (2, 'rl'), (2, 'lr'), (2, 'ra'))
    def spec(n, ops, c1: 'bytes', c2: 'bytes', s1: 'u31', s2: 'u31'):
        f = Ref(received([c1, c2][:n]))
        return play(f, ops, [s1, s2])
    def impl(n, ops, c1, c2, s1, s2):
        sock = Sock([c1, c2][:n])
        return play(repo('capnpy.buffered:BufferedSocket')(sock), ops, [s1, s2])


class socket_asks:
    """recv is asked for a positive number of bytes (0 would look like end of stream)"""
    prop = 'C16'
    def spec(n: 'u16', c1: 'bytes'):
        requires(n >= 1)
        received([c1])
        return n
    def impl(n, c1):
        sock = Sock([c1])
        f = repo('capnpy.buffered:BufferedSocket')(sock, n)
        f.read(1)
        return sock.asked[0]


class socket_send:
    """what is written is sent once, in order, when flushed"""
    prop = 'C16'
    def spec(a: 'bytes', b: 'bytes', c: 'bytes'):
        requires(a is not None and b is not None and c is not None)
        return b'', a + b, a + b + c, 1
    def impl(a, b, c):
        sock = Sock([])
        f = repo('capnpy.buffered:BufferedSocket')(sock)
        f.write(a)
        f.write(b)
        s0 = sock.sent
        f.flush()
        s1 = sock.sent
        f.write(c)
        f.flush()
        f.flush()
        s2 = sock.sent
        f.close()
        return s0, s1, s2, sock.closed


class stringbuffer:
    """a string as a stream"""
    prop = 'C16,C08'
    cases = ('r', 'l', 'a', 'rr', 'rl', 'lr', 'll', 'ra', 'la', 'rrr', 'lrl', 'rll', 'aa', 'al')
    def spec(ops, s: 'bytes', s1: 'u31', s2: 'u31', s3: 'u31'):
        requires(s is not None and len(s) <= 2**30)
        return play(Ref(s), ops, [s1, s2, s3])
    def impl(ops, s, s1, s2, s3):
        return play(repo('capnpy.buffered:StringBuffer')(s), ops, [s1, s2, s3])


class Plain(object):
    """an ordinary Python file object"""
    def __init__(self, s):
        self.r = Ref(s)
        self.asked = []

    def read(self, size=-1):
        self.asked.append(size)
        return self.r.read(size)

    def readline(self):
        return self.r.readline()


class adapter:
    """the adapter of an ordinary file forwards sizes and results"""
    prop = 'C16'
    unroll = 6
    cases = ('r', 'l', 'a', 'rr', 'rl', 'lr', 'll', 'ra')
    def spec(ops, s: 'bytes', s1: 'u31', s2: 'u31'):
        requires(s is not None)
        return play(Ref(s), ops, [s1, s2])
    def impl(ops, s, s1, s2):
        return play(repo('capnpy.filelike:FileLikeAdapter')(Plain(s)), ops, [s1, s2])


class as_filelike:
    """the compiled loader wraps ordinary files and leaves FileLike objects alone"""
    prop = 'C16'
    def spec(s: 'bytes'):
        f = Chunks([])
        requires(s is not None)
        return True, s
    def impl(s):
        f = Chunks([])
        as_filelike = repo('capnpy.filelike:as_filelike')
        return as_filelike(f) is f, as_filelike(Plain(s)).read()
