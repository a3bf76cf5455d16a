"""numbers in text (coda/string.h, coda/socket.h) and the civil calendar (coda/gmtime.h)"""
from vc.spec import *
from vc.syslib import swapped

SH = 'units/num.c'
U = 1 << 64
MAXOBJ = (1 << 63) - 1
phi = lambda n: (n.startswith('phi:') or n == 'it') and ('@' not in n or n.endswith('@P:data')) and '#' not in n


def dig(c): return And(c >= 48, c <= 57)


def val_fn(v, lo):
    """value, modulo 2^64, of the decimal digits data[lo..i)"""
    s = v.data

    def unfold(sf, i): return [Imp(i <= lo, sf(i) == 0), Imp(i > lo, sf(i) == (sf(i - 1) * 10 + s[i - 1] - 48) % U), sf(i) >= 0, sf(i) < U]
    return v.fn('val%s' % lo, 1, unfold, lambda f, i: int(bytes(s[j] for j in range(lo, i)) or b'0') % U if all(dig(s[j]) for j in range(lo, i)) else f(i - 1))


def dgen(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 19, 20, 21, 30])
    k = rng.random()
    if k < .6: d = bytes(rng.choice(b'0123456789') for _ in range(n))
    elif k < .8: d = (b'%d' % rng.choice([U - 1, U, U // 2, U // 2 - 1, 10 ** 19, 0, 9, 10]))
    else: d = bytes(rng.choice(b'0123456789/:-+ x\x00\xb0') for _ in range(n))
    if rng.random() < .4: d = b'-' + d
    return {'data': d, 'size': len(d)}


def atou_post(v):
    n, s = v.size, v.data
    val = val_fn(v, 0)
    bad = v.exists(0, n, lambda k: Not(dig(s[k])))
    return [('not a number', Imp(bad, v.ret == 0)), ('value', Imp(Not(bad), v.ret == val(n)))]


def atoi_post(v):
    n, s = v.size, v.data
    val = val_fn(v, 0)
    val1 = val_fn(v, 1)
    neg = And(n > 0, s[0] == 45)
    bad = v.exists(0, n, lambda k: Not(dig(s[k])))
    bad1 = v.exists(1, n, lambda k: Not(dig(s[k])))
    r = v.ret % U
    return [('not a number', Imp(And(bad, Not(neg)), r == 0)), ('value', Imp(Not(bad), r == val(n))), ('not a number after the sign', Imp(And(neg, bad1), r == 0)),
            ('negated value', Imp(And(neg, Not(bad1)), r == (0 - val1(n)) % U))]


def num(name, post, ret, lo):
    inv = []
    for L in lo:
        inv += [('digits%d' % L, 1, lambda v, t, L=L: v.forall(L, t, lambda k: dig(v.data[k])), phi), ('value%d' % L, 2, lambda v, t, x, L=L: x == val_fn(v, L)(t), phi),
                ('valueoff%d' % L, 2, lambda v, t, x, L=L: x == val_fn(v, L)(t + L), phi), ('digitsoff%d' % L, 1, lambda v, t, L=L: v.forall(L, t + L, lambda k: dig(v.data[k])), phi)]
    return Contract(name, 'coda/string.h', [Buf('data', 'size'), Int('size')], ret=ret, shim=SH, post=post, gen=dgen, nat_name='v_' + name, pre=lambda v: [v.size <= MAXOBJ], inv=inv)


NUM = [num('coda_atou', atou_post, 'u64', (0,)), num('coda_atoi', atoi_post, 'i64', (0, 1))]


# ---------------------------------------------------------------- dotted addresses
def inet_fns(v):
    s = v.data
    dot = lambda i: s[i] == 46

    def lin(name, f0, step):
        def unfold(sf, i): return [Imp(i <= 0, sf(i) == f0), Imp(i > 0, sf(i) == step(sf, i))] + ([sf(i) >= 0])
        return v.fn(name, 1, unfold, lambda f, i: f0 if i <= 0 else step(f, i), ret='int')
    octet = lin('octet', 0, lambda f, i: Ite(dot(i - 1), 0, f(i - 1) * 10 + s[i - 1] - 48))
    dots = lin('dots', 0, lambda f, i: f(i - 1) + Ite(dot(i - 1), 1, 0))
    prev = [octet]                                       # the completed parts, latest first
    for j in range(4): prev.append(lin('part%d' % j, 0, lambda f, i, p=prev[-1]: Ite(dot(i - 1), p(i - 1), f(i - 1))))
    addr = lambda i: prev[1](i) + 256 * prev[2](i) + (1 << 16) * prev[3](i) + (1 << 24) * prev[4](i)
    small = lambda i: And([And(p(i) >= 0, p(i) < 256) for p in prev])
    ok = lambda n: v.forall(0, n, lambda k: Or(dot(k), And(dig(s[k]), octet(k) * 10 + s[k] - 48 < 256)))
    return octet, dots, addr, ok, prev, small


def inet_post(v):
    octet, dots, addr, ok, prev, small = inet_fns(v)
    n = v.size
    good = And(ok(n), dots(n) == 3)
    x = octet(n) + 256 * prev[1](n) + (1 << 16) * prev[2](n) + (1 << 24) * prev[3](n)
    return [('refused', Imp(Not(good), v.ret == 0xffffffff)), ('address', Imp(good, v.ret == swapped(x, 4)))]


def inet_gen(rng, i):
    k = rng.random()
    q = lambda: rng.choice([b'0', b'1', b'9', b'10', b'99', b'100', b'199', b'249', b'255', b'256', b'260', b'999', b'', b'001', b'18446744073709551617', b'1x', b' 1', b'4294967297'] if k < .5 else [b'%d' % rng.randrange(256)])
    d = b'.'.join(q() for _ in range(rng.choice([4, 4, 4, 4, 3, 5, 1])))
    return {'data': d, 'size': len(d)}


INET = [Contract('coda_inet_addr', 'coda/socket.h', [Buf('data', 'size'), Int('size')], ret='u32', shim=SH, post=inet_post, gen=inet_gen, nat_name='v_coda_inet_addr', pre=lambda v: [v.size <= MAXOBJ],
                 inv=[('octet starts', 1, lambda v, t: inet_fns(v)[0](t) == 0, phi), ('octet', 2, lambda v, t, x: x == inet_fns(v)[0](t), phi), ('dots', 2, lambda v, t, x: x == inet_fns(v)[1](t), phi), ('addr', 2, lambda v, t, x: x == inet_fns(v)[2](t), phi),
                      ('addr24', 2, lambda v, t, x: (x * 256) % (1 << 32) == (lambda p: 256 * p[1](t) + (1 << 16) * p[2](t) + (1 << 24) * p[3](t))(inet_fns(v)[4]), phi),
                      ('ok', 1, lambda v, t: And(inet_fns(v)[3](t), inet_fns(v)[5](t), inet_fns(v)[1](t) <= t), phi)])]


# ---------------------------------------------------------------- calendar
TMAX = 67767976233532799     # the last second of the year 2147483647


def leap(y): return And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


q = lambda x: dv(x, 4) - dv(x, 100) + dv(x, 400)
lp = lambda x: Ite(leap(x), 1, 0)


def gm_hints(v):
    days = dv(v.t, 86400)
    D = days + 719468                                                        # days since March 1 of the year 0
    y0 = dv((D + 2) * 400, 146097)
    A = dv(y0, 400); B = dv(y0 - 400 * A, 100); C = dv(y0 - 400 * A - 100 * B, 4); E = y0 - 400 * A - 100 * B - 4 * C
    yd = D - 365 * y0 - q(y0)
    return [('centuries', And(B >= 0, B <= 3, C >= 0, C <= 24, E >= 0, E <= 3)), ('by 4', dv(y0, 4) == 100 * A + 25 * B + C), ('by 100', dv(y0, 100) == 4 * A + B), ('before', q(y0) == q(y0 - 1) + lp(y0)),
            ('after', q(y0 + 1) == q(y0) + lp(y0 + 1)), ('leap years', Iff(leap(y0), And(E == 0, Or(C != 0, B == 0)))), ('estimate', And(146097 * y0 <= 400 * D + 800, 400 * D + 800 < 146097 * y0 + 146097)),
            ('day of the estimated year', And(yd >= -2, yd <= 366))]


def gm_post(v):
    t = v.t
    f = {n: cellnew(v, 'tp', o, 32) for n, o in (('sec', 0), ('min', 4), ('hour', 8), ('mday', 12), ('mon', 16), ('year', 20), ('wday', 24))}
    days, s = dv(t, 86400), t % 86400
    y, m, d = f['year'], f['mon'], f['mday']
    jan1 = 365 * (y - 1970) + q(y) - lp(y) - 477                              # days from 1970-01-01 to January 1 of year y
    return [('hour, minute, second', And(f['hour'] == dv(s, 3600), f['min'] == dv(s, 60) % 60, f['sec'] == s % 60)), ('day of the week', f['wday'] == (days + 4) % 7), ('month', And(m >= 1, m <= 12)), ('no other field is touched', And([cellnew(v, 'tp', o, 32) == getattr(v, 'f%d' % o) for o in range(28, 56, 4)] + [cellnew(v, 'tp', 24, 32) == f['wday']]))] + \
        [('date in month %d' % (k + 1), Imp(m == k + 1, And(d >= 1, d <= LEN[k] + (lp(y) if k == 1 else 0), days == jan1 + CUM[k] + (lp(y) if k > 1 else 0) + d - 1))) for k in range(12)]


def gm_gen(rng, i):
    k = rng.random()
    if k < .3: t = rng.randrange(0, 1 << 33)
    elif k < .5: t = rng.randrange(0, TMAX)
    else:
        import datetime
        d = datetime.date(rng.randrange(1970, 9999), rng.choice([1, 2, 2, 2, 3, 3, 12]), rng.choice([1, 28, 2])) - datetime.date(1970, 1, 1)
        t = max(0, (d.days + rng.randrange(-2, 4)) * 86400 + rng.choice([0, 86399, 43200]))
    return dict(t=t)


GMT = [Contract('coda_gmtime', 'coda/gmtime.h', [Int('t', 64, True, 0, TMAX), Struct('tp', 56, [(o, 'int', 32, 'f%d' % o) for o in range(0, 56, 4)])], shim=SH, post=gm_post, nat_name='v_coda_gmtime', timeout=60.0, hints=gm_hints,
                gen=lambda rng, i: dict(gm_gen(rng, i), **{'f%d' % o: 7 for o in range(0, 56, 4)}))]
ALL = NUM + INET + GMT
