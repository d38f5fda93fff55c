"""The mathematical specification of the fields and curves (independent of the
code; the integers below are the published ones and are re-verified by the
parameter check: primality, orders, curve-family relations)."""

A = 475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137
B = 475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081
BN_U = 4965661367192848881
BN_Q = 36 * BN_U**4 + 36 * BN_U**3 + 24 * BN_U**2 + 6 * BN_U + 1
BN_R = 36 * BN_U**4 + 36 * BN_U**3 + 18 * BN_U**2 + 6 * BN_U + 1
BLS_X = -0xd201000000010000
BLS_R = BLS_X**4 - BLS_X**2 + 1
BLS_Q = (BLS_X - 1)**2 * BLS_R // 3 + BLS_X
ED_R = 1552511030102430251236801561344621993261920897571225601
ED_Q = 6210044120409721004947206240885978274523751269793792001

ED_D = 600581931845324488256649384912508268813600056237543024
MNT4_B = 423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685
MNT6_B = 106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074

# modulus symbol -> (prime, limbs)
PRIMES = {
    'alt_bn128_modulus_r': (BN_R, 4), 'alt_bn128_modulus_q': (BN_Q, 4),
    'bls12_381_modulus_r': (BLS_R, 4), 'bls12_381_modulus_q': (BLS_Q, 6),
    'edwards_modulus_r': (ED_R, 3), 'edwards_modulus_q': (ED_Q, 3),
    'mnt46_modulus_A': (A, 5), 'mnt46_modulus_B': (B, 5),
}
# towers over modulus: class -> (subclass, degree, relation)
# relation: generator^degree = polynomial in lower generators
#   given as list of (coef, {gen: exp})
TOWERS = {
    'alt_bn128_modulus_q': {
        'Fp2_model': ('Fp_model', 2, 'u', [(-1, {})]),
        'Fp6_3over2_model': ('Fp2_model', 3, 'v', [(9, {}), (1, {'u': 1})]),
        'Fp12_2over3over2_model': ('Fp6_3over2_model', 2, 'w', [(1, {'v': 1})]),
    },
    'bls12_381_modulus_q': {
        'Fp2_model': ('Fp_model', 2, 'u', [(-1, {})]),
        'Fp6_3over2_model': ('Fp2_model', 3, 'v', [(1, {}), (1, {'u': 1})]),
        'Fp12_2over3over2_model': ('Fp6_3over2_model', 2, 'w', [(1, {'v': 1})]),
    },
    'mnt46_modulus_B': {   # mnt4 base field
        'Fp2_model': ('Fp_model', 2, 'u', [(17, {})]),
        'Fp4_model': ('Fp2_model', 2, 'w', [(1, {'u': 1})]),
    },
    'mnt46_modulus_A': {   # mnt6 base field
        'Fp3_model': ('Fp_model', 3, 'u', [(5, {})]),
        'Fp6_2over3_model': ('Fp3_model', 2, 'w', [(1, {'u': 1})]),
    },
    'edwards_modulus_q': {
        'Fp3_model': ('Fp_model', 3, 'u', [(61, {})]),
        'Fp6_2over3_model': ('Fp3_model', 2, 'w', [(1, {'u': 1})]),
    },
}
LETTER = {'mnt46_modulus_A': 'mnt6', 'mnt46_modulus_B': 'mnt4', 'alt_bn128_modulus_q': 'alt_bn128', 'bls12_381_modulus_q': 'bls12_381', 'edwards_modulus_q': 'edwards',
          'alt_bn128_modulus_r': 'alt_bn128 Fr', 'bls12_381_modulus_r': 'bls12_381 Fr', 'edwards_modulus_r': 'edwards Fr'}


def tsize(mod, cls):
    if cls == 'Fp_model':
        return PRIMES[mod][1] * 8
    s, d, g, r = TOWERS[mod][cls]
    return d * tsize(mod, s)


class FE:
    """exact element of a tower field: nested tuples over ints (used for
    constants, oracles and spec powers)"""


def add(mod, cls, a, b):
    p = PRIMES[mod][0]
    if cls == 'Fp_model':
        return (a + b) % p
    s = TOWERS[mod][cls][0]
    return tuple(add(mod, s, x, y) for x, y in zip(a, b))


def neg(mod, cls, a):
    p = PRIMES[mod][0]
    if cls == 'Fp_model':
        return -a % p
    s = TOWERS[mod][cls][0]
    return tuple(neg(mod, s, x) for x in a)


def sub(mod, cls, a, b):
    return add(mod, cls, a, neg(mod, cls, b))


def zero(mod, cls):
    if cls == 'Fp_model':
        return 0
    s, d, g, r = TOWERS[mod][cls]
    return tuple(zero(mod, s) for _ in range(d))


def embed(mod, cls, a, frm='Fp_model'):
    """embed element of subfield class frm"""
    if cls == frm:
        return a
    s, d, g, r = TOWERS[mod][cls]
    e = embed(mod, s, a, frm)
    return (e,) + tuple(zero(mod, s) for _ in range(d - 1))


def one(mod, cls):
    return embed(mod, cls, 1)


def _genrel(mod, cls):
    """value of generator^degree as an element of the subclass"""
    s, d, g, r = TOWERS[mod][cls]
    acc = zero(mod, s)
    for c, ge in r:
        t = embed(mod, s, c % PRIMES[mod][0])
        for gn, e in ge.items():
            for _ in range(e):
                t = mul(mod, s, t, gen(mod, s, gn))
        acc = add(mod, s, acc, t)
    return acc


def gen(mod, cls, name):
    s, d, g, r = TOWERS[mod][cls]
    if g == name:
        return (zero(mod, s), one(mod, s)) + tuple(zero(mod, s) for _ in range(d - 2))
    return embed(mod, cls, gen(mod, s, name), s)


_gr = {}


def mul_rec(mod, cls, a, b):
    p = PRIMES[mod][0]
    if cls == 'Fp_model':
        return a * b % p
    s, d, g, r = TOWERS[mod][cls]
    k = (mod, cls)
    if k not in _gr:
        _gr[k] = _genrel(mod, cls)
    nr = _gr[k]
    res = [zero(mod, s) for _ in range(2 * d - 1)]
    for i in range(d):
        for j in range(d):
            res[i + j] = add(mod, s, res[i + j], mul_rec(mod, s, a[i], b[j]))
    for i in range(2 * d - 2, d - 1, -1):
        res[i - d] = add(mod, s, res[i - d], mul_rec(mod, s, res[i], nr))
    return tuple(res[:d])


_tab = {}


def _table(mod, cls):
    """structure constants of the monomial basis, from the recursive definition"""
    n = deg(mod, cls)
    t = []
    for i in range(n):
        row = []
        for j in range(n):
            x = [0] * n
            y = [0] * n
            x[i] = 1
            y[j] = 1
            z = flat(mul_rec(mod, cls, unflat(mod, cls, x), unflat(mod, cls, y)))
            row.append([(k, c) for k, c in enumerate(z) if c])
        t.append(row)
    _tab[(mod, cls)] = t
    return t


def mul(mod, cls, a, b):
    p = PRIMES[mod][0]
    if cls == 'Fp_model':
        return a * b % p
    t = _tab.get((mod, cls)) or _table(mod, cls)
    x, y = flat(a), flat(b)
    n = len(x)
    acc = {}
    for i in range(n):
        xi = x[i]
        if not xi:
            continue
        row = t[i]
        for j in range(n):
            yj = y[j]
            if yj:
                v = xi * yj
                for kc in row[j]:
                    acc[kc] = acc.get(kc, 0) + v
    r = [0] * n
    for (k, c), v in acc.items():
        r[k] += v * c if c != 1 else v
    return unflat(mod, cls, [v % p for v in r])


def power(mod, cls, a, e):
    r = one(mod, cls)
    while e:
        if e & 1:
            r = mul(mod, cls, r, a)
        e >>= 1
        if e:
            a = mul(mod, cls, a, a)
    return r


def deg(mod, cls):
    if cls == 'Fp_model':
        return 1
    s, d, g, r = TOWERS[mod][cls]
    return d * deg(mod, s)


def inv(mod, cls, a):
    p = PRIMES[mod][0]
    if cls == 'Fp_model':
        if a % p == 0:
            raise ZeroDivisionError
        return pow(a, -1, p)
    if cls.startswith('Fp2') or cls in ('Fp4_model', 'Fp6_2over3_model', 'Fp12_2over3over2_model'):
        s = TOWERS[mod][cls][0]
        k = (mod, cls)
        if k not in _gr:
            _gr[k] = _genrel(mod, cls)
        n = sub(mod, s, mul(mod, s, a[0], a[0]), mul(mod, s, _gr[k], mul(mod, s, a[1], a[1])))
        i = inv(mod, s, n)
        return (mul(mod, s, a[0], i), neg(mod, s, mul(mod, s, a[1], i)))
    # cubic: 1/(a0 + a1 g + a2 g^2) by the adjugate
    s = TOWERS[mod][cls][0]
    k = (mod, cls)
    if k not in _gr:
        _gr[k] = _genrel(mod, cls)
    b = _gr[k]
    M = lambda x, y: mul(mod, s, x, y)
    S = lambda x, y: sub(mod, s, x, y)
    a0, a1, a2 = a
    c0 = S(M(a0, a0), M(b, M(a1, a2)))
    c1 = S(M(b, M(a2, a2)), M(a0, a1))
    c2 = S(M(a1, a1), M(a0, a2))
    n = add(mod, s, M(a0, c0), M(b, add(mod, s, M(a2, c1), M(a1, c2))))
    i = inv(mod, s, n)
    r = (M(c0, i), M(c1, i), M(c2, i))
    assert mul(mod, cls, r, a) == one(mod, cls)
    return r


def flat(a):
    if isinstance(a, int):
        return [a]
    r = []
    for x in a:
        r += flat(x)
    return r


def unflat(mod, cls, l):
    if cls == 'Fp_model':
        return l[0]
    s, d, g, r = TOWERS[mod][cls]
    n = deg(mod, s)
    return tuple(unflat(mod, s, l[i * n:(i + 1) * n]) for i in range(d))


class Curve:
    """one group: coordinate class, model, affine equation, order, published generator (affine)
    model jac / proj: y^2 = x^3 + a x + b;  inv: a x^2 + y^2 = 1 + d x^2 y^2 (inverted coordinates)"""

    def __init__(self, name, mod, cls, model, a, b, r, gen, gen_inverted=None):
        self.name, self.mod, self.cls, self.model, self.a, self.b, self.r = name, mod, cls, model, a, b, r
        if gen_inverted is not None:
            X, Y, Z = gen_inverted
            gen = (mul(mod, cls, Z, inv(mod, cls, X)), mul(mod, cls, Z, inv(mod, cls, Y)))
        self.gen = gen

    # affine arithmetic, None is the identity
    def on(self, P):
        if P is None:
            return True
        m, c = self.mod, self.cls
        x, y = P
        x2, y2 = mul(m, c, x, x), mul(m, c, y, y)
        if self.model == 'inv':
            l = add(m, c, mul(m, c, self.a, x2), y2)
            r = add(m, c, one(m, c), mul(m, c, self.b, mul(m, c, x2, y2)))
            return l == r
        return y2 == add(m, c, add(m, c, mul(m, c, x2, x), mul(m, c, self.a, x)), self.b)

    def neg(self, P):
        if P is None:
            return None
        if self.model == 'inv':
            return (neg(self.mod, self.cls, P[0]), P[1])
        return (P[0], neg(self.mod, self.cls, P[1]))

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        m, c = self.mod, self.cls
        x1, y1 = P
        x2, y2 = Q
        M = lambda u, v: mul(m, c, u, v)
        S = lambda u, v: sub(m, c, u, v)
        A = lambda u, v: add(m, c, u, v)
        if self.model == 'inv':
            t = M(self.b, M(M(x1, x2), M(y1, y2)))
            x3 = M(A(M(x1, y2), M(y1, x2)), inv(m, c, A(one(m, c), t)))
            y3 = M(S(M(y1, y2), M(self.a, M(x1, x2))), inv(m, c, S(one(m, c), t)))
            if x3 == zero(m, c) and y3 == one(m, c):
                return None
            return (x3, y3)
        if x1 == x2:
            if y1 != y2 or y1 == zero(m, c):
                return None
            xx = M(x1, x1)
            l = M(A(A(A(xx, xx), xx), self.a), inv(m, c, A(y1, y1)))
        else:
            l = M(S(y2, y1), inv(m, c, S(x2, x1)))
        x3 = S(S(M(l, l), x1), x2)
        return (x3, S(M(l, S(x1, x3)), y1))

    def mul(self, P, k):
        if k < 0:
            P, k = self.neg(P), -k
        R = None
        for b in bin(k)[2:]:
            R = self.add(R, R)
            if b == '1':
                R = self.add(R, P)
        return R

    # raw representations (X, Y, Z) of an affine point
    def rep(self, P, z):
        m, c = self.mod, self.cls
        M = lambda u, v: mul(m, c, u, v)
        if P is None:
            if self.model == 'jac':
                return (z, add(m, c, z, one(m, c)), zero(m, c))
            if self.model == 'proj':
                return (zero(m, c), z, zero(m, c))
            return (z, zero(m, c), zero(m, c))
        x, y = P
        if self.model == 'jac':
            z2 = M(z, z)
            return (M(x, z2), M(y, M(z2, z)), z)
        if self.model == 'proj':
            return (M(x, z), M(y, z), z)
        return (M(z, inv(m, c, x)), M(z, inv(m, c, y)), z)

    def unrep(self, T):
        """affine point of raw coordinates; 'bad' when they represent no point"""
        m, c = self.mod, self.cls
        X, Y, Z = T
        o = zero(m, c)
        if self.model == 'jac' and Z == o:
            return None
        if self.model == 'proj' and Z == o:
            return None if X == o and Y != o else 'bad'
        if self.model == 'inv':
            if Y == o and Z == o:
                return None
            if X == o or Y == o or Z == o:
                return 'bad'
            return (mul(m, c, Z, inv(m, c, X)), mul(m, c, Z, inv(m, c, Y)))
        zi = inv(m, c, Z)
        if self.model == 'proj':
            return (mul(m, c, X, zi), mul(m, c, Y, zi))
        z2 = mul(m, c, zi, zi)
        return (mul(m, c, X, z2), mul(m, c, Y, mul(m, c, z2, zi)))


def _curves():
    q, b4 = 'alt_bn128_modulus_q', 'bls12_381_modulus_q'
    xi_inv = inv(q, 'Fp2_model', (9, 1))
    m4, m6, ed = 'mnt46_modulus_B', 'mnt46_modulus_A', 'edwards_modulus_q'
    L = [
        Curve('alt_bn128_G1', q, 'Fp_model', 'jac', 0, 3, BN_R, (1, 2)),
        Curve('alt_bn128_G2', q, 'Fp2_model', 'jac', (0, 0), mul(q, 'Fp2_model', (3, 0), xi_inv), BN_R,
              ((10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634),
               (8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531))),
        Curve('bls12_381_G1', b4, 'Fp_model', 'jac', 0, 4, BLS_R,
              (3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507, 1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569)),
        Curve('bls12_381_G2', b4, 'Fp2_model', 'jac', (0, 0), (4, 4), BLS_R,
              ((352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160, 3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758),
               (1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905, 927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582))),
        Curve('edwards_G1', ed, 'Fp_model', 'inv', 1, ED_D, ED_R, None,
              (4869953702976555123067178261685365085639705297852816679, 3713709671941291996998665608188072510389821008693530490, 5784117754931168290907668375627317834973537199927293100)),
        Curve('edwards_G2', ed, 'Fp3_model', 'inv', (0, 1, 0), (0, ED_D, 0), ED_R, None,
              ((364634864866983740775341816274081071386963546650700569, 3264380230116139014996291397901297105159834497864380415, 3504781284999684163274269077749440837914479176282903747),
               (4531683359223370252210990718516622098304721701253228128, 5339624155305731263217400504407647531329993548123477368, 3964037981777308726208525982198654699800283729988686552),
               (5691049030389968571706190994110282579483361724967715073, 4458020907058120138246484975190566548128106781138812173, 5769188596695420613401068680779927948041124405071526515))),
        Curve('mnt4_G1', m4, 'Fp_model', 'proj', 2, MNT4_B, A,
              (60760244141852568949126569781626075788424196370144486719385562369396875346601926534016838, 363732850702582978263902770815145784459747722357071843971107674179038674942891694705904306)),
        Curve('mnt4_G2', m4, 'Fp2_model', 'proj', (34, 0), (0, 17 * MNT4_B % B), A,
              ((438374926219350099854919100077809681842783509163790991847867546339851681564223481322252708, 37620953615500480110935514360923278605464476459712393277679280819942849043649216370485641),
               (37437409008528968268352521034936931842973546441370663118543015118291998305624025037512482, 424621479598893882672393190337420680597584695892317197646113820787463109735345923009077489))),
        Curve('mnt6_G1', m6, 'Fp_model', 'proj', 11, MNT6_B, B,
              (336685752883082228109289846353937104185698209371404178342968838739115829740084426881123453, 402596290139780989709332707716568920777622032073762749862342374583908837063963736098549800)),
        Curve('mnt6_G2', m6, 'Fp3_model', 'proj', (0, 0, 11), (5 * MNT6_B % A, 0, 0), B,
              ((421456435772811846256826561593908322288509115489119907560382401870203318738334702321297427, 103072927438548502463527009961344915021167584706439945404959058962657261178393635706405114, 143029172143731852627002926324735183809768363301149009204849580478324784395590388826052558),
               (464673596668689463130099227575639512541218133445388869383893594087634649237515554342751377, 100642907501977375184575075967118071807821117960152743335603284583254620685343989304941678, 123019855502969896026940545715841181300275180157288044663051565390506010149881373807142903))),
    ]
    return {c.name: c for c in L}


CURVES = _curves()
FILES = {'alt_bn128': 'algebra/curves/alt_bn128/alt_bn128', 'bls12_381': 'algebra/curves/bls12_381/bls12_381', 'edwards': 'algebra/curves/edwards/edwards',
         'mnt4': 'algebra/curves/mnt/mnt4/mnt4', 'mnt6': 'algebra/curves/mnt/mnt6/mnt6'}

# traces of Frobenius of the base curves
_l = 689871209842287392837045615510547309923794945
TRACES = {'a': 6 * BN_U**2 + 1, 'b': BLS_X + 1, 'e': ED_Q + 1 - 4 * ED_R, '4': B + 1 - A, '6': A + 1 - B}
