import zlib, random, os


def deflate(data, level, strategy=0, wbits=-15):
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, 9, strategy)
    return c.compress(data) + c.flush()


def seeds(d, seed):
    r = random.Random(seed)
    texts = [b'', b'a', b'hello hello hello hello', bytes(range(256)) * 3, os.urandom(300) if False else bytes(r.randrange(256) for _ in range(300)),
             b'abc' * 5000, bytes(r.choice(b'abcdefgh ') for _ in range(20000)), b'\0' * 66000, bytes(r.randrange(4) for _ in range(3000)),
             b''.join(bytes([r.randrange(256)]) * r.randrange(1, 300) for _ in range(100)),
             (lambda x: x + bytes(20000) + x + bytes(r.randrange(256) for _ in range(12000)) + x)(bytes(r.randrange(256) for _ in range(500)))]
    n = 0
    for t in texts:
        for lv, st in ((0, 0), (1, 0), (9, 0), (6, 4), (6, 2), (6, 3)):
            z = deflate(t, lv, st)
            for mode in (0, 1, 1 | 8 << 1, 1 | 4 << 1, 1 | 16 << 1, 1 | 2 << 1, 1 | 30 << 1, 1 | 1 << 6, 1 | 2 << 6, 1 | 3 << 6 | 2 << 1):
                b = bytes([mode, 255, 255]) + (bytes([r.randrange(256), r.randrange(40), r.randrange(40), 0, r.randrange(256)]) if mode & 1 else b'') + z
                open('%s/%d' % (d, n), 'wb').write(b)
                n += 1
                if len(t) < 1000 and mode < 2:
                    for cap in (len(t), len(t) - 1, 0):
                        if cap >= 0:
                            open('%s/%d' % (d, n), 'wb').write(bytes([mode, cap >> 8, cap & 255]) + b[3:])
                            n += 1
    # single-code distance trees, multi-block streams
    c = zlib.compressobj(6, zlib.DEFLATED, -15)
    b = c.compress(b'abcabcabc') + c.flush(zlib.Z_FULL_FLUSH) + c.compress(b'xyz' * 50) + c.flush(zlib.Z_SYNC_FLUSH) + c.compress(b'') + c.flush()
    open(d + '/multi', 'wb').write(bytes([0, 255, 255]) + b)

    for k in range(150):
        for v in range(2):
            b = dynamic(r, bool(v))
            open('%s/dyn%d.%d' % (d, k, v), 'wb').write(bytes([0, 255, 255]) + b)


def dynamic(r, spoil):
    """a dynamic block whose code length runs cross the literal/distance border, with random header choices"""
    bits = []

    def put(v, n):
        bits.extend((v >> i) & 1 for i in range(n))
    hlit, hdist = r.choice([257, 258, 270, 286]), r.choice([1, 2, 5, 30])
    lens = [0] * (hlit + hdist)
    # literals: a random complete code on a few symbols including 256
    syms = sorted(r.sample(range(256), r.choice([1, 3, 7, 15])) + [256])
    n = len(syms)
    for i, s in enumerate(syms):
        lens[s] = n.bit_length() - 1
    if r.random() < .5 and n >= 2 and hlit < 286:
        pass
    dsyms = r.choice([[], [0], [hdist - 1]])
    for s in dsyms:
        lens[hlit + s] = 1
    # run lengths over the whole list, greedy or random
    out, i = [], 0
    while i < len(lens):
        j = i
        while j < len(lens) and lens[j] == lens[i]:
            j += 1
        run = j - i
        if lens[i] == 0 and run >= 3:
            m = min(run, 138)
            if m < 138 or r.random() < .7:
                pass
            if m >= 11:
                m = r.choice([m, m, r.randrange(11, m + 1)])
                out.append((18, m - 11, 7))
            else:
                out.append((17, m - 3, 3))
            i += m
        elif i and lens[i] == lens[i - 1] and run >= 3:
            m = min(run, 6)
            out.append((16, m - 3, 2))
            i += m
        else:
            out.append((lens[i], 0, 0))
            i += 1
    if spoil:
        x = r.randrange(4)
        if x == 0:
            out.append((18, r.randrange(128), 7))
        elif x == 1:
            out.insert(0, (16, 0, 2))
        elif x == 2:
            out[-1] = (18, 127, 7)
        else:
            k = r.randrange(len(out))
            out[k] = (out[k][0], (out[k][1] + 1) % (1 << out[k][2]) if out[k][2] else 0, out[k][2])
    # code length code: all used symbols get equal power-of-two lengths
    used = sorted(set(o[0] for o in out))
    w = max(1, (len(used) - 1).bit_length())
    full = list(used)
    for s in range(19):
        if len(full) < 1 << w and s not in full:
            full.append(s)
    full.sort()
    order = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
    hclen = max(order.index(s) for s in full) + 1
    hclen = max(hclen, 4)
    put(1, 1), put(2, 2), put(hlit - 257, 5), put(hdist - 1, 5), put(hclen - 4, 4)
    for s in order[:hclen]:
        put(w if s in full else 0, 3)

    def code(c, n):
        bits.extend((c >> (n - 1 - i)) & 1 for i in range(n))
    for s, e, n in out:
        code(full.index(s), w), put(e, n)
    l = lens[256]
    act = [s for s in range(hlit) if lens[s]]
    if l:
        for _ in range(r.randrange(6)):
            k = r.randrange(len(act))
            if act[k] != 256:
                code(k, l)
        code(act.index(256), l)
    while len(bits) % 8:
        bits.append(0)
    return bytes(sum(bits[i + j] << j for j in range(8)) for i in range(0, len(bits), 8))


REF = dict(seconds=60, max_len=40000, asan=True)
