"""Sites for C07: bodies of constexpr functions of one argument o, through which all constants pass. o is the identity at
compile time and hides the value at run time. Each body fills `r`."""
import re


def real(rng, lo=-2.0, hi=2.0):
    m = rng.randrange(4)
    if m == 0:
        return repr(float(rng.randint(int(lo), int(hi))))
    if m == 1:
        return repr(rng.randint(int(lo * 8), int(hi * 8)) / 8.0)
    return repr(rng.uniform(lo, hi))


def scale(rng, t):
    """a power of two: scales without rounding"""
    k = rng.choice([0, rng.randint(-20, 20), rng.randint(*((-30, 30) if t == "float" else (-250, 250)))])
    return "%s( %s )" % (t, float.hex(2.0 ** k))


def num(rng, t):
    if t in ("double", "float"):
        v = real(rng, -50, 50)
        return v + "f" if t == "float" else v
    if t == "long":
        return "%dl" % rng.randint(-10**12, 10**12)
    return "%d" % rng.randint(-1000, 1000)


def spacing(rng, n):
    """a spacing with n points"""
    c = ["EqualSpacing"]
    if n <= 4:
        c.append("GaussLegendreSpacing")
    if n <= 9:
        c.append("GaussLobattoSpacing")
    return "s::" + rng.choice(c)


def basis(rng, R, top=4):
    o = rng.randint(1, top)
    return "s::functions::LagrangeBasis< %s, %d, %s >" % (R, o, spacing(rng, o + 1)), o + 1


def f_array(rng):
    t = rng.choice(["int", "double", "float", "long"])
    rank = rng.randint(1, 5)
    dims = []
    p = 1
    big = rng.random() < 0.15
    for _ in range(rank):
        d = rng.randint(1, min(600, max(1, 2000 // p))) if big else rng.randint(1, min(4, max(1, 36 // p)))
        dims.append(d)
        p *= d
    D = ", ".join(map(str, dims))
    b = "using A = s::CArrayNd< %s, %s >; A a{}; %s buf[%d] = {}; s::CArrayViewNd< %s, %s > w( buf ); " % (t, D, t, p, t, D)
    nres = 0

    def idx():
        return [rng.randrange(d) for d in dims]
    for k in range(rng.randint(3, 9)):
        x = rng.choice("aw")
        i = idx()
        form = rng.randrange(4)
        acc = {0: "%s( %s )" % (x, ", ".join("o( %d )" % v for v in i)), 1: x + "".join("[o( %d )]" % v for v in i),
               2: "%s.template operator()< %s >()" % (x, ", ".join(map(str, i))),
               3: "%s( %s )" % (x, ", ".join("o( %s( %d ) )" % (rng.choice(["long", "short", "int", "unsigned"]), v) for v in i))}[form]
        op = rng.randrange(4)
        if op < 2:
            b += "%s = o( %s( %s ) ); " % (acc, t, num(rng, t))
        elif op == 2:
            b += "r.add( %s ); " % acc
            nres += 1
        else:
            b += "{ A const ca( a ); r.add( ca( %s ) ); } " % ", ".join("o( %d )" % v for v in i)
            nres += 1
    if big:
        # the elements that were written, with their places
        b += "for ( int k = 0, n = 0; k < A::size(); ++k ) for ( %s v : { a.data()[k], buf[k] } ) if ( v != %s( 0 ) && n < 20 ) { r.add( v ); r.add( %s( k ) ); ++n; } while ( r.n < %d ) r.add( %s( 0 ) ); " % (t, t, t, nres + 40, t)
        return t, nres + 40, b
    b += "for ( int k = 0; k < A::size(); ++k ) { r.add( a.data()[k] ); r.add( buf[k] ); } "
    return t, nres + 2 * p, b


def f_wide_index(rng):
    """more elements than an int can count; loops that start close to the end"""
    base = rng.choice(["long", "std::size_t", "std::int64_t", "std::uint64_t"])
    n = rng.randint(2, 5)
    lim = 2 ** 62
    r = []
    p = 1
    for _ in range(n):
        d = rng.choice([1, 2, rng.randint(2, 50), rng.randint(1000, 70000), rng.randint(10**9, 6 * 10**9)])
        if p * d >= lim:
            d = rng.randint(1, max(1, min(9, lim // p - 1)))
        r.append(d)
        p *= d
    at = [rng.choice([rng.randrange(d), d - 1, max(0, d - 2)]) for d in r]
    st = [max(0, d - rng.randint(1, 3)) for d in r]
    b = "using I = s::MultiIndexRange< %s, %s >; I x{ { %s } }; " % (base, ", ".join(map(str, r)), ", ".join("o( %s( %dl ) )" % (base, v) for v in at))
    b += "r.add( static_cast< long >( linearIndex( x ) ) ); I y{ { %s } }; long h = o( %dl ), n = 0; " % (", ".join("o( %s( %dl ) )" % (base, v) for v in st), rng.randrange(100))
    b += "forRange( y, [&]( auto const & q ) { h = ( h * 31 + static_cast< long >( linearIndex( q ) ) %% 1000003 ) %% 1000003; for ( auto v : q.data ) h = ( h * 37 + static_cast< long >( v %% 1009 ) ) %% 1000003; ++n; } ); " % ()
    b += "r.add( h ); r.add( n ); for ( int k = 0; k < %d; ++k ) r.add( static_cast< long >( I::range( k ) ) ); " % n
    return "long", 3 + n, b


def f_index(rng):
    if rng.random() < 0.3:
        return f_wide_index(rng)
    base = rng.choice(["int", "long", "short", "unsigned", "std::size_t"])
    n = rng.randint(1, 5)
    r = []
    p = 1
    for _ in range(n):
        d = rng.randint(1, min(9, max(1, 90 // p)))
        r.append(d)
        p *= d
    b = "using I = s::MultiIndexRange< %s, %s >; I x{ { %s } }; " % (base, ", ".join(map(str, r)), ", ".join("o( %s( %d ) )" % (base, rng.randrange(d)) for d in r))
    b += "r.add( static_cast< long >( linearIndex( x ) ) ); I y{}; long h = o( %d ), n = 0; forRange( y, [&]( auto const & q ) { h = ( h * 31 + static_cast< long >( linearIndex( q ) ) ) %% 1000003; ++n; } ); " % rng.randrange(100)
    b += "r.add( h ); r.add( n ); for ( int k = 0; k < %d; ++k ) { r.add( static_cast< long >( y.data[k] ) ); r.add( I::range( k ) ); } " % n
    return "long", 3 + 2 * n, b


def f_sequence(rng):
    n = rng.randint(1, 4)
    e = [rng.randint(1, 4) for _ in range(n)]
    E = ", ".join(map(str, e))
    one = rng.randint(0, 9)
    b = "long h = o( %dl ), n = 0; " % rng.randint(0, 999)
    b += "s::forNestedSequence< %s >( [&]( auto const ... i ) { int const x[] = { decltype( i )::value ... }; for ( int v : x ) h = ( h * 37 + v + 1 ) %% 1000003; ++n; } ); r.add( h ); r.add( n ); " % E
    b += "s::forSequence< %d >( [&]( auto i ) { h = ( h * 41 + decltype( i )::value + 1 ) %% 1000003; } ); r.add( h ); " % one
    b += "r.add( s::executeSequence< %d >( []( long k, auto ... i ) { return ( k + ... + ( decltype( i )::value * 3l ) ); }, o( %dl ) ) ); " % (max(1, one), rng.randint(-99, 99))
    pk = [rng.randint(-99, 99) for _ in range(rng.randint(1, 6))]
    k = rng.randrange(len(pk))
    b += "r.add( s::IntPackPeeler< %d, %s >::value() + o( 0l ) ); " % (k, ", ".join(map(str, pk)))
    return "long", 5, b


def f_math(rng):
    t = rng.choice(["double", "float", "int", "long"])
    e = rng.randint(0, {"double": 12, "float": 8, "int": 6, "long": 12}[t])
    v = {"double": real(rng), "float": real(rng) + "f", "int": str(rng.randint(-30, 30)), "long": str(rng.randint(-30, 30)) + "l"}[t]
    if t in ("int", "long") and rng.random() < 0.6:
        # results of every size up to the largest number of the type, where they have more digits than a double
        bits = 31 if t == "int" else 63
        e = rng.randint(1, 5)
        m = int((2 ** bits - 1) ** (1.0 / e)) - 1
        while m ** e >= 2 ** bits:
            m -= 1
        v = str(rng.choice([-1, 1]) * rng.randint(max(1, m // 3), m)) + ("l" if t == "long" else "")
    return t, 1, "r.rel = true; r.add( mu::pow< %s, %d >( o( %s ) ) ); " % (t, e, v)


def f_inverse(rng):
    t = rng.choice(["double", "float"])
    m = [[("%.6f" % (rng.uniform(-1, 1) + (rng.choice([3, -4]) if i == j else 0))) + ("f" if t == "float" else "") for j in range(3)] for i in range(3)]
    if rng.random() < 0.5:
        b = "%s m[3][3] = { %s }; " % (t, ", ".join("{ %s }" % ", ".join("o( %s )" % v for v in row) for row in m))
        at = "m[i][j]"
    else:
        b = "s::CArrayNd< %s, 3, 3 > m{ %s }; " % (t, ", ".join("o( %s )" % v for row in m for v in row))
        at = "m( i, j )"
    k = scale(rng, t)
    b += "%s const z = %s; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) %s *= z; " % (t, k, at)
    b += "%s d = 0; mu::inverse( m, d ); r.add( d / z / z / z ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.add( %s * z ); " % (t, at)
    return t, 10, b


def f_points(rng):
    t = rng.choice(["double", "float"])
    kind = rng.randrange(5)
    if kind == 0:
        n = rng.randint(2, 14)
        S = "s::EqualSpacing< %s, %d >" % (t, n)
    elif kind == 1:
        n = rng.randint(2, 4)
        S = "s::QuadratureGaussLegendre< %s, %d >" % (t, n)
    elif kind == 2:
        n = rng.randint(2, 9)
        S = "s::QuadratureGaussLobatto< %s, %d >" % (t, n)
    elif kind == 3:
        n = rng.randint(2, 4)
        S = "s::GaussLegendreSpacing< %s, %d >" % (t, n)
    else:
        n = rng.randint(2, 9)
        S = "s::functions::LagrangeBasis< %s, %d, s::GaussLobattoSpacing >" % (t, n - 1)
    k = rng.randrange(n)
    b = "using S = %s; constexpr %s c = S::template coordinate< %d >(); r.add( S::coordinate( o( %d ) ) ); r.add( c - S::coordinate( o( %d ) ) + %s( 1 ) ); r.add( S::template coordinate< %d >() + o( %s( 0 ) ) ); " % (
        S, t, k, k, k, t, k, t)
    m = 3
    # as template and as value: both the same number
    alt = "r.add( S::template coordinate< %d >() ); r.add( %s( 1 ) ); r.add( S::template coordinate< %d >() ); " % (k, t, k)
    if kind in (1, 2):
        b += "r.add( S::template weight< %d >() + o( %s( 0 ) ) ); " % (k, t)
        alt += "r.add( S::template weight< %d >() ); " % k
        m += 1
        if kind == 1 or n <= 5:
            b += "r.add( S::weight( o( %d ) ) ); " % k
            alt += "r.add( S::template weight< %d >() ); " % k
            m += 1
    return t, m, b, "using S = %s; " % S + alt


def f_basis(rng):
    t = rng.choice(["double", "float"])
    B, n = basis(rng, t, 8)
    k = rng.randrange(n)
    w = rng.choice([1.25, 4.5])
    x = "%s( %s )" % (t, real(rng, -w, w))
    b = "using B = %s; r.add( B::template value< %d >( o( %s ) ) ); r.add( B::template gradient< %d >( o( %s ) ) ); " % (B, k, x, k, x)
    return t, 2, b


def bases(rng, t, dims, top):
    bs, n = [], []
    for _ in range(dims):
        b, m = basis(rng, t, top)
        bs.append(b)
        n.append(m)
    return bs, n


def f_product(rng):
    t = rng.choice(["double", "float"])
    d = rng.randint(1, 4)
    bs, n = bases(rng, t, d, 4)
    P = rng.choice(["BP", "PE", "IS"])
    i = ", ".join(str(rng.randrange(m)) for m in n)
    x = ", ".join("o( %s( %s ) )" % (t, real(rng, -1.25, 1.25)) for _ in range(d))
    c = rng.choice(["%s const x[%d] = { %s }; " % (t, d, x), "s::CArrayNd< %s, %d > const x{ %s }; " % (t, d, x), "std::array< %s, %d > const x{ { %s } }; " % (t, d, x)])
    if P == "PE" and "[" in c and d == 1:
        pass
    b = "using P = %s< %s, %s >; " % (P, t, ", ".join(bs)) + c
    b += "r.add( P::template value< %s >( x ) ); auto const g = P::template gradient< %s >( x ); for ( int k = 0; k < %d; ++k ) r.add( g( k ) ); " % (i, i, d)
    return t, 1 + d, b


def f_element(rng):
    t = rng.choice(["double", "float"])
    d = rng.randint(1, 3)
    bs, n = bases(rng, t, d, 2 if d == 3 else 3)
    p = 1
    for m in n:
        p *= m
    b = "using P = PE< %s, %s >; %s const x[%d] = { %s }; " % (t, ", ".join(bs), t, d, ", ".join("o( %s( %s ) )" % (t, real(rng, -1, 1)) for _ in range(d)))
    b += "s::CArrayNd< %s, %s > v{}; for ( int k = 0; k < %d; ++k ) v.data()[k] = o( %s( %s ) ) * ( k %% 5 ) - %s( k ) / 3; " % (t, ", ".join(map(str, n)), p, t, real(rng), t)
    b += "r.add( P::value( x, v ) ); auto const g = P::gradient( x, v ); for ( int k = 0; k < %d; ++k ) r.add( g( k ) ); " % d
    return t, 1 + d, b


def f_transform(rng):
    t = rng.choice(["double", "float"])
    bs, n = bases(rng, t, 3, 2)
    p = n[0] * n[1] * n[2]
    b = "using T = LT< %s, %s >; T x{}; %s a[%d][3] = {}; " % (t, ", ".join(bs), t, p)
    # a grid with a generated distortion
    sh = [real(rng, -0.2, 0.2) for _ in range(3)]
    b += "for ( int v = 0; v < %d; ++v ) { int const i = v %% %d, j = v / %d %% %d, k = v / %d; a[v][0] = %s( i + o( %s( %s ) ) * ( j & 1 ) ); a[v][1] = %s( j + o( %s( %s ) ) * ( k & 1 ) ); a[v][2] = %s( k + o( %s( %s ) ) * ( i & 1 ) ); } " % (
        p, n[0], n[0], n[1], n[0] * n[1], t, t, sh[0], t, t, sh[1], t, t, sh[2])
    b += "%s const z = %s; for ( auto & v : a ) for ( auto & w : v ) w *= z; " % (t, scale(rng, t))
    b += "x.setData( a ); "
    form = rng.randrange(3)
    c = ", ".join("o( %s( %s ) )" % (t, real(rng, -1, 1)) for _ in range(3))
    out = "for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.add( J( i, j ) / z ); "
    if form == 0:
        return t, 9, b + "%s const q[3] = { %s }; typename T::JacobianType J{}; su::jacobian( x, q, J ); " % (t, c) + out
    if form == 1:
        return t, 10, b + "%s const q[3] = { %s }; typename T::JacobianType J{}; %s d = 0; su::inverseJacobian( x, q, J, d ); r.add( d / z / z / z ); " % (t, c, t) + out.replace("/ z", "* z")
    # quadrature point as template arguments, and its coordinates as values
    nq = rng.randint(2, 4)
    Q = "s::Quadrature%s< %s, %d >" % (rng.choice(["GaussLegendre", "GaussLobatto"]), t, nq)
    q = [rng.randrange(nq) for _ in range(3)]
    ct = b + "typename T::JacobianType J{}; su::jacobian< %s, %d, %d, %d >( x, J ); " % (Q, q[0], q[1], q[2]) + out
    rt = b + "%s const q[3] = { %s }; typename T::JacobianType J{}; su::jacobian( x, q, J ); " % (t, ", ".join("%s::coordinate( o( %d ) )" % (Q, v) for v in q)) + out
    return t, 9, rt, ct


def f_scaling(rng):
    t = rng.choice(["double", "float"])
    h = ["o( %s( %s ) )" % (t, repr(rng.uniform(0.1, 9) * 10 ** rng.choice([0, rng.randint(-9, 9), rng.randint(*((-11, 11) if t == "float" else (-90, 90)))]))) for _ in range(3)]
    if rng.random() < 0.5:
        b = "r.rel = true; sg::Scaling< %s > x{}; %s const h[3] = { %s }; x.setData( h ); typename decltype( x )::JacobianType J{}; %s d = 0; " % (t, t, ", ".join(h), t)
        b += "su::jacobian( x, J ); for ( int k = 0; k < 3; ++k ) r.add( J( k ) ); su::inverseJacobian( x, J, d ); for ( int k = 0; k < 3; ++k ) r.add( J( k ) ); r.add( d ); auto const J2 = su::jacobian( x ); r.add( J2( 1 ) ); "
        return t, 8, b
    b = "r.rel = true; sg::UniformScaling< %s > x{}; x.setData( %s ); typename decltype( x )::JacobianType J{}; %s d = 0; su::jacobian( x, J ); r.add( J( 0 ) ); su::inverseJacobian( x, J, d ); r.add( J( 0 ) ); r.add( d ); r.add( su::jacobian( x )( 0 ) ); " % (t, h[0], t)
    return t, 4, b


def f_shape(rng):
    t = rng.choice(["double", "float"])
    lo = rng.randint(-9, 9)
    S = "sg::%s< %s, %d, %d, %d, %d >" % (rng.choice(["NCube", "NSimplex"]), t, rng.randint(1, 7), lo, lo + rng.randint(1, 5), rng.randint(1, 4))
    b = "r.rel = true; using S = %s; %s const z = o( %s( 0 ) ); for ( int v : { S::numDims(), S::numVertices(), S::numEdges(), S::numFaces(), S::numCells(), S::numHyperFaces() } ) r.add( %s( v ) + z ); " % (S, t, t, t)
    b += "r.add( S::minCoord() + z ); r.add( S::maxCoord() + z ); r.add( S::length() + z ); r.add( S::volume() + z ); "
    return t, 10, b


def f_check(rng):
    t = rng.choice(["double", "float"])
    a, c, e = real(rng), real(rng), repr(rng.choice([0.1, 1.3, 2.7]))
    return "int", 1, "r.add( s::pmpl::check( o( %s( %s ) ), o( %s( %s ) ), o( %s( %s ) ) ) ); " % (t, a, t, c, t, e)


FEATURES = [(f_array, 6), (f_index, 3), (f_sequence, 3), (f_math, 3), (f_inverse, 2), (f_points, 5), (f_basis, 4), (f_product, 4), (f_element, 3), (f_transform, 4), (f_scaling, 2), (f_shape, 2), (f_check, 1)]


def f_tuple(rng):
    """the forms that return a tuple, which are not for constant expressions in every standard"""
    t = rng.choice(["double", "float"])
    h = ["o( %s( %s ) )" % (t, repr(rng.uniform(0.1, 9))) for _ in range(3)]
    get = "r.add( VH_GET< 0 >( u ) ); auto const J = VH_GET< 1 >( u ); "
    kind = rng.randrange(4)
    if kind == 0:
        b = "sg::Scaling< %s > x{}; %s const h[3] = { %s }; x.setData( h ); auto const u = su::inverseJacobian( x ); " % (t, t, ", ".join(h))
        return t, 4, b + get + "for ( int k = 0; k < 3; ++k ) r.add( J( k ) ); "
    if kind == 1:
        b = "sg::UniformScaling< %s > x{}; x.setData( %s ); auto const u = su::inverseJacobian( x ); " % (t, h[0])
        return t, 2, b + get + "r.add( J( 0 ) ); "
    if kind == 2:
        v = [real(rng) for _ in range(3)]
        return t, 3, "auto const u = s::make_tuple( o( %s( %s ) ), o( %s( %s ) ), o( %s( %s ) ) ); r.add( VH_GET< 2 >( u ) ); r.add( VH_GET< 0 >( u ) ); r.add( VH_GET< 1 >( u ) ); " % (t, v[0], t, v[1], t, v[2])
    b = "using T = LT< %s, s::functions::LagrangeBasis< %s, 1, s::EqualSpacing >, s::functions::LagrangeBasis< %s, 1, s::EqualSpacing >, s::functions::LagrangeBasis< %s, 1, s::EqualSpacing > >; " % (t, t, t, t)
    b += "T x{}; %s a[8][3] = {}; for ( int v = 0; v < 8; ++v ) { a[v][0] = ( v & 1 ) * %s; a[v][1] = ( v >> 1 & 1 ) * %s + a[v][0] / 4; a[v][2] = ( v >> 2 ) * %s; } x.setData( a ); " % (t, h[0], h[1], h[2])
    b += "%s const q[3] = { %s }; auto const u = su::inverseJacobian( x, q ); " % (t, ", ".join("o( %s( %s ) )" % (t, real(rng, -1, 1)) for _ in range(3)))
    return t, 10, b + get + "for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.add( J( i, j ) ); "


def site(rng, number):
    """(name of the feature, text of one line)"""
    f = rng.choices([x for x, _ in FEATURES], [w for _, w in FEATURES])[0]
    x = f(rng)
    t, n, body = x[:3]
    other = x[3] if len(x) > 3 else None
    if t == "double" and other is None and rng.random() < 0.3:
        t, body = "ldouble", re.sub(r"\bdouble\b", "ldouble", body)
    fn = "template< typename O > constexpr Res< %s, %d > f%d( O o ) { Res< %s, %d > r{}; (void) o; %sreturn r; } " % (t, n, number, t, n, body)
    ct = "f%d( Known{} )" % number
    checks = "good = same( %d, f%d( Known{} ), f%d( Hidden{} ) ) && good; " % (number, number, number)
    if other is not None:
        fn += "template< typename O > constexpr Res< %s, %d > g%d( O o ) { Res< %s, %d > r{}; (void) o; %sreturn r; } " % (t, n, number, t, n, other)
        checks = "constexpr auto gt = g%d( Known{} ); good = same( %d, gt, g%d( Hidden{} ) ) && same( %d, gt, f%d( Hidden{} ) ) && good; " % (number, number, number, number, number)
    line = fn + "static bool s%d() { bool good = true; constexpr auto ct = %s; %sgood = same( %d, ct, f%d( Hidden{} ) ) && good; return good; }" % (number, ct, checks, number, number)
    return f.__name__[2:], line


def device_site(rng, number):
    """as site, but compared between host and device: kernels get the arguments as values"""
    all_ = FEATURES + [(f_tuple, 3)]
    f = rng.choices([x for x, _ in all_], [w for _, w in all_])[0]
    t, n, body = f(rng)[:3]
    fn = "template< typename O > SHIVA_HOST_DEVICE Res< %s, %d > f%d( O o ) { Res< %s, %d > r{}; (void) o; %sreturn r; } " % (t, n, number, t, n, body)
    line = fn + "static bool s%d() { auto const h = f%d( Hidden{} ); auto d = h; d.n = -1; for ( auto & v : d.v ) v = 77; " % (number, number)
    line += "s::pmpl::genericKernelWrapper( 1, &d, [] SHIVA_HOST_DEVICE ( Res< %s, %d > * r ) { *r = f%d( Hidden{} ); }, false ); " % (t, n, number)
    line += "s::pmpl::genericKernelWrapper( 0, &d, [] SHIVA_HOST_DEVICE ( Res< %s, %d > * ) {}, false ); return same( %d, h, d, \"on the host\", \"on the device\" ); }" % (t, n, number)
    return f.__name__[2:], line


def program(lines):
    """lines: [(number, text)]"""
    s = "#include \"c07_common.hpp\"\n"
    for _, l in lines:
        s += l + "\n"
    s += "int main() { bool good = true; %sreturn good ? 0 : 1; }\n" % "".join("good = s%d() && good; " % k for k, _ in lines)
    return s
