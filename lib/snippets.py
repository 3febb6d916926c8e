"""Pieces of programs for the checks of whole programs: each needs a set of headers and prints what it computes."""
import re

H = {
    "Shiva": "shiva/Shiva.hpp",
    "CArray": "shiva/common/CArray.hpp",
    "CArrayHelper": "shiva/common/CArrayHelper.hpp",
    "IndexTypes": "shiva/common/IndexTypes.hpp",
    "LinearIndex": "shiva/common/LinearIndex.hpp",
    "MathUtilities": "shiva/common/MathUtilities.hpp",
    "MultiIndex": "shiva/common/MultiIndex.hpp",
    "NestedSequenceUtilities": "shiva/common/NestedSequenceUtilities.hpp",
    "SequenceUtilities": "shiva/common/SequenceUtilities.hpp",
    "ShivaErrorHandling": "shiva/common/ShivaErrorHandling.hpp",
    "ShivaMacros": "shiva/common/ShivaMacros.hpp",
    "pmpl": "shiva/common/pmpl.hpp",
    "types": "shiva/common/types.hpp",
    "ParentElement": "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp",
    "BasisProduct": "shiva/functions/bases/BasisProduct.hpp",
    "LagrangeBasis": "shiva/functions/bases/LagrangeBasis.hpp",
    "Quadrature": "shiva/functions/quadrature/Quadrature.hpp",
    "Spacing": "shiva/functions/spacing/Spacing.hpp",
    "JacobianTransforms": "shiva/geometry/mapping/JacobianTransforms.hpp",
    "LinearTransform": "shiva/geometry/mapping/LinearTransform.hpp",
    "Scaling": "shiva/geometry/mapping/Scaling.hpp",
    "UniformScaling": "shiva/geometry/mapping/UniformScaling.hpp",
    "InterpolatedShape": "shiva/geometry/shapes/InterpolatedShape.hpp",
    "NCube": "shiva/geometry/shapes/NCube.hpp",
    "NSimplex": "shiva/geometry/shapes/NSimplex.hpp",
}
UMBRELLA = {"ParentElement", "BasisProduct", "LagrangeBasis", "Quadrature", "Spacing", "JacobianTransforms", "LinearTransform", "Scaling", "UniformScaling",
            "InterpolatedShape", "NCube", "NSimplex"}
PROLOGUE = "extern \"C\" int printf( char const *, ... );\n#define OUT( ... ) printf( \"%.6g\\n\", static_cast< double >( __VA_ARGS__ ) )\n"


def given(headers):
    """The headers that a list of included headers gives to a program by name."""
    g = set(headers)
    if "Shiva" in g:
        g |= UMBRELLA
    if "IndexTypes" in g:
        g |= {"LinearIndex", "MultiIndex"}
    if "JacobianTransforms" in g:
        g |= {"LinearTransform", "Scaling", "UniformScaling"}
    return g


def R(r):
    return r.choice(["double", "float"])


def x(r, lo=-1.0, hi=1.0):
    return "%.4f" % r.uniform(lo, hi)


def sp(r, n):
    c = ["EqualSpacing", "GaussLobattoSpacing"] + (["GaussLegendreSpacing"] if n <= 4 else [])
    return "shiva::" + r.choice(c)


def lb(r, t, top=3):
    o = r.randint(1, top)
    return "shiva::functions::LagrangeBasis< %s, %d, %s >" % (t, o, sp(r, o + 1)), o + 1


def lbs(r, t, d, top=3):
    b = [lb(r, t, top) for _ in range(d)]
    return ", ".join(v[0] for v in b), [v[1] for v in b]


def s_carray(r):
    t = r.choice(["double", "float", "int", "long"])
    d = [r.randint(1, 4) for _ in range(r.randint(1, 4))]
    i = [r.randrange(n) for n in d]
    D = ", ".join(map(str, d))
    return ("shiva::CArrayNd< %s, %s > a{}; a( %s ) = %s( 3 ); OUT( a.size() ); OUT( a( %s ) ); OUT( a%s ); for ( auto v : { a.data()[0] } ) OUT( v ); "
            "%s b[%d] = {}; shiva::CArrayViewNd< %s, %s > w( b ); w( %s ) = %s( 5 ); OUT( w( %s ) ); auto c = a; OUT( c.size() ); OUT( a.template extent< 0 >() );") % (
        t, D, ", ".join(map(str, i)), t, ", ".join(map(str, i)), "".join("[%d]" % k for k in i), t, __import__("math").prod(d), t, D, ", ".join(map(str, i)), t, ", ".join(map(str, i)))


def s_linear(r):
    t = r.choice(["int", "long", "unsigned"])
    return "shiva::LinearIndex< %s > i = %d; ++i; OUT( i );" % (t, r.randint(0, 99))


def s_multi(r):
    b = r.choice(["int", "long"])
    d = [r.randint(1, 4) for _ in range(r.randint(1, 4))]
    i = [r.randrange(n) for n in d]
    return ("shiva::MultiIndexRange< %s, %s > i{ { %s } }; OUT( linearIndex( i ) ); long n = 0; shiva::MultiIndexRange< %s, %s > j{}; forRange( j, [&]( auto const & k ) { n = 7 * n %% 9973 + linearIndex( k ); } ); OUT( n );") % (
        b, ", ".join(map(str, d)), ", ".join(map(str, i)), b, ", ".join(map(str, d)))


def s_multi_alone(r):
    d = [r.randint(1, 4) for _ in range(3)]
    i = [r.randrange(n) for n in d]
    return "shiva::MultiIndexRange< int, %s > i{ { %s } }; OUT( i.data[%d] ); OUT( i.range( %d ) );" % (", ".join(map(str, d)), ", ".join(map(str, i)), r.randrange(3), r.randrange(3))


def s_math(r):
    t = R(r)
    return ("OUT( ( shiva::mathUtilities::pow< %s, %d >( %s ) ) ); %s m[3][3] = { { 4, 1, 0 }, { 0, 5, %s }, { 1, 0, 6 } }; %s d = 0; shiva::mathUtilities::inverse( m, d ); OUT( d ); OUT( m[1][2] ); OUT( m[2][0] );") % (
        t, r.randint(0, 6), x(r), t, r.randint(0, 3), t)


def s_nested(r):
    d = [r.randint(1, 3) for _ in range(r.randint(1, 4))]
    return "long n = 0; shiva::forNestedSequence< %s >( [&]( auto const ... i ) { n = 5 * n %% 9973 + ( 0 + ... + decltype( i )::value ); } ); OUT( n ); shiva::forNestedSequence( std::integer_sequence< int, %s >{}, [&]( auto ... ) { ++n; } ); OUT( n );" % (
        ", ".join(map(str, d)), ", ".join(map(str, d)))


def s_seq(r):
    n = r.randint(1, 5)
    p = [r.randint(-9, 9) for _ in range(4)]
    return ("OUT( ( shiva::executeSequence< %d >( [&]( auto ... i ) { return ( 1 + ... + decltype( i )::value ); } ) ) ); long n = 0; shiva::forSequence< %d >( [&]( auto i ) { n += decltype( i )::value * 3; } ); OUT( n ); OUT( ( shiva::IntPackPeeler< %d, %s >::value() ) );") % (
        n, n, r.randrange(4), ", ".join(map(str, p)))


def s_error(r):
    return "int n = %d; SHIVA_ASSERT_MSG( n > 0, \"n is %%d\", n ); if ( n < 0 ) shivaAssertionFailed( __FILE__, __LINE__, false, \"%%d\", n ); OUT( n );" % r.randint(1, 99)


def s_macros(r):
    return "int n = %d; SHIVA_UNUSED_VAR( n ); OUT( SHIVA_VERSION_MINOR ); OUT( SHIVA_IS_CONST_EVAL() ? 1 : n );" % r.randint(1, 99)


def s_pmpl(r):
    t = r.choice(["double", "int"])
    return ("%s * d = new %s[3]{ 1, 2, 3 }; shiva::pmpl::genericKernelWrapper( 3, d, [] SHIVA_DEVICE ( auto * const p ) { p[1] = %s( %d ); } ); OUT( d[1] ); shiva::pmpl::deallocateData( d ); int n = 0; shiva::pmpl::genericKernelWrapper( [&]{ n = 4; } ); OUT( n ); OUT( shiva::pmpl::check( 1.0, 1.01, %s ) );") % (
        t, t, t, r.randint(4, 9), r.choice(["0.1", "0.001"]))


def s_types(r):
    return "shiva::tuple< int, double > t{ %d, 2.5 }; OUT( std::get< 0 >( t ) ); auto u = shiva::make_tuple( 1, %d ); OUT( std::get< 1 >( u ) ); OUT( shiva::make_int_sequence< %d >::size() ); OUT( ( shiva::int_sequence< 1, 2, 3 >::size() ) );" % (
        r.randint(0, 9), r.randint(0, 9), r.randint(1, 6))


def cell(t, d):
    return "shiva::geometry::NCube< %s, %d, -1, 1, 1 >" % (t, d)


def coords(r, d):
    return ", ".join(x(r) for _ in range(d))


def s_element(r):
    t = R(r)
    d = r.randint(1, 3)
    b, n = lbs(r, t, d, 2 if d == 3 else 3)
    p = 1
    for v in n:
        p *= v
    return ("using P = shiva::discretizations::finiteElementMethod::ParentElement< %s, %s, %s >; %s const x[%d] = { %s }; shiva::CArrayNd< %s, %s > v{}; for ( int k = 0; k < %d; ++k ) v.data()[k] = k * k; OUT( P::value( x, v ) ); auto g = P::gradient( x, v ); OUT( g( %d ) ); OUT( ( P::template value< %s >( x ) ) ); OUT( ( P::template gradient< %s >( x )( 0 ) ) );") % (
        t, cell(t, d), b, t, d, coords(r, d), t, ", ".join(map(str, n)), p, r.randrange(d), ", ".join("0" for _ in n), ", ".join("0" for _ in n))


def s_interpolated(r):
    t = R(r)
    d = r.randint(1, 3)
    b, n = lbs(r, t, d)
    i = ", ".join(str(r.randrange(v)) for v in n)
    return ("using P = shiva::geometry::InterpolatedShape< %s, %s, %s >; %s const x[%d] = { %s }; OUT( ( P::template value< %s >( x ) ) ); OUT( ( P::template gradient< %s >( x )( %d ) ) );") % (
        t, cell(t, d), b, t, d, coords(r, d), i, i, r.randrange(d))


def s_product(r):
    t = R(r)
    d = r.randint(1, 4)
    b, n = lbs(r, t, d)
    i = ", ".join(str(r.randrange(v)) for v in n)
    return ("using P = shiva::functions::BasisProduct< %s, %s >; shiva::CArrayNd< %s, %d > const x{ %s }; OUT( ( P::template value< %s >( x ) ) ); OUT( ( P::template gradient< %s >( x )( %d ) ) );") % (
        t, b, t, d, ", ".join("%s( %s )" % (t, x(r)) for _ in range(d)), i, i, r.randrange(d))


def s_basis(r):
    t = R(r)
    b, n = lb(r, t, 7)
    k = r.randrange(n)
    return "using B = %s; OUT( ( B::template value< %d >( %s( %s ) ) ) ); OUT( ( B::template gradient< %d >( %s( %s ) ) ) ); OUT( B::template coordinate< %d >() ); OUT( B::coordinate( %d ) );" % (
        b, k, t, x(r), k, t, x(r), k, k)


def s_quadrature(r):
    t = R(r)
    n = r.randint(2, 4)
    k = r.randrange(n)
    return "using Q = shiva::Quadrature%s< %s, %d >; OUT( Q::template coordinate< %d >() ); OUT( Q::template weight< %d >() ); OUT( Q::coordinate( %d ) ); OUT( Q::weight( %d ) ); OUT( Q::numPoints );" % (
        r.choice(["GaussLegendre", "GaussLobatto"]), t, n, k, k, k, k)


def s_spacing(r):
    t = R(r)
    n = r.randint(2, 4)
    k = r.randrange(n)
    return "using S = %s< %s, %d >; OUT( S::template coordinate< %d >() ); OUT( S::coordinate( %d ) );" % (sp(r, n), t, n, k, k)


def s_transform(r):
    t = R(r)
    b, n = lbs(r, t, 3, 2)
    p = n[0] * n[1] * n[2]
    return ("using S = shiva::geometry::InterpolatedShape< %s, %s, %s >; shiva::geometry::LinearTransform< %s, S > f{}; %s a[%d][3] = {}; for ( int v = 0; v < %d; ++v ) { a[v][0] = v %% %d * 2; a[v][1] = v / %d %% %d + %s * ( v %% 2 ); a[v][2] = v / %d; } f.setData( a ); %s const q[3] = { %s }; typename decltype( f )::JacobianType J{}; shiva::geometry::utilities::jacobian( f, q, J ); OUT( J( 0, 0 ) ); OUT( J( 1, %d ) ); %s d = 0; shiva::geometry::utilities::inverseJacobian( f, q, J, d ); OUT( d ); OUT( J( %d, 1 ) );") % (
        t, cell(t, 3), b, t, t, p, p, n[0], n[0], n[1], x(r, 0, 0.1), n[0] * n[1], t, coords(r, 3), r.randrange(3), t, r.randrange(3))


def s_scaling(r):
    t = R(r)
    return ("shiva::geometry::Scaling< %s > f{}; %s const h[3] = { %s, 2, 3 }; f.setData( h ); typename decltype( f )::JacobianType J{}; shiva::geometry::utilities::jacobian( f, J ); OUT( J( %d ) ); %s d = 0; shiva::geometry::utilities::inverseJacobian( f, J, d ); OUT( d ); OUT( J( 0 ) );") % (
        t, t, r.randint(1, 9), r.randrange(3), t)


def s_uniform(r):
    t = R(r)
    return ("shiva::geometry::UniformScaling< %s > f{}; f.setData( %d ); typename decltype( f )::JacobianType J{}; shiva::geometry::utilities::jacobian( f, J ); OUT( J( 0 ) ); %s d = 0; shiva::geometry::utilities::inverseJacobian( f, J, d ); OUT( d ); OUT( J( 0 ) );") % (t, r.randint(1, 9), t)


def s_forms(r):
    t = R(r)
    b, n = lbs(r, t, 3, 1)
    return ("shiva::geometry::UniformScaling< %s > u{}; u.setData( %d ); OUT( shiva::geometry::utilities::jacobian( u )( 0 ) ); { auto [ d, I ] = shiva::geometry::utilities::inverseJacobian( u ); OUT( d ); OUT( I( 0 ) ); } "
            "using S = shiva::geometry::InterpolatedShape< %s, %s, %s >; shiva::geometry::LinearTransform< %s, S > f{}; %s a[8][3] = {}; for ( int v = 0; v < 8; ++v ) { a[v][0] = v %% 2 * 2; a[v][1] = v / 2 %% 2; a[v][2] = v / 4; } f.setData( a ); "
            "%s const q[3] = { %s }; OUT( shiva::geometry::utilities::jacobian( f, q )( 0, 0 ) ); { auto [ d, I ] = shiva::geometry::utilities::inverseJacobian( f, q ); OUT( d ); OUT( I( 2, 2 ) ); }") % (
        t, r.randint(1, 9), t, cell(t, 3), b, t, t, t, coords(r, 3))


def s_cube(r):
    return "using S = shiva::geometry::NCube< %s, %d, -1, %d, %d >; OUT( S::numDims() ); OUT( S::numVertices() ); OUT( S::numEdges() ); OUT( S::numFaces() ); OUT( S::numCells() ); OUT( S::volume() ); OUT( S::length() ); OUT( S::minCoord() ); OUT( S::maxCoord() );" % (
        R(r), r.randint(1, 6), r.randint(0, 3), r.randint(1, 3))


def s_simplex(r):
    return s_cube(r).replace("NCube", "NSimplex")


SNIPPETS = [
    (s_carray, {"CArray"}), (s_linear, {"LinearIndex"}), (s_multi, {"IndexTypes"}), (s_multi_alone, {"MultiIndex"}), (s_math, {"MathUtilities"}),
    (s_nested, {"NestedSequenceUtilities"}), (s_seq, {"SequenceUtilities"}), (s_error, {"ShivaErrorHandling"}), (s_macros, {"ShivaMacros"}), (s_pmpl, {"pmpl"}),
    (s_types, {"types"}), (s_element, {"ParentElement", "LagrangeBasis", "Spacing", "NCube", "CArray"}), (s_interpolated, {"InterpolatedShape", "LagrangeBasis", "Spacing", "NCube"}),
    (s_product, {"BasisProduct", "LagrangeBasis", "Spacing", "CArray"}), (s_basis, {"LagrangeBasis", "Spacing"}), (s_quadrature, {"Quadrature"}), (s_spacing, {"Spacing"}),
    (s_transform, {"LinearTransform", "InterpolatedShape", "LagrangeBasis", "Spacing", "NCube"}), (s_scaling, {"Scaling"}), (s_uniform, {"UniformScaling"}),
    (s_forms, {"JacobianTransforms", "InterpolatedShape", "LagrangeBasis", "Spacing", "NCube"}), (s_cube, {"NCube"}), (s_simplex, {"NSimplex"}),
]


def supported():
    """(headers, statement): one use for each template argument that a part of the library supports."""
    out = []

    def add(h, t):
        out.append((h, re.sub(r"\b(long double|unsigned long|unsigned char|long long)\(", r"( \1 )(", t)))
    for t in ("float", "double", "long double"):
        for n in (2, 3, 4):
            add({"Quadrature"}, "using Q = shiva::QuadratureGaussLegendre< %s, %d >; OUT( Q::coordinate( %d ) ); OUT( Q::weight( %d ) ); OUT( Q::template coordinate< %d >() ); OUT( Q::template weight< 0 >() ); OUT( Q::numPoints );" % (t, n, n - 1, n - 1, n - 1))
        for n in range(2, 10):
            add({"Quadrature"}, "using Q = shiva::QuadratureGaussLobatto< %s, %d >; OUT( Q::template coordinate< %d >() ); OUT( Q::template weight< %d >() ); OUT( Q::coordinate( %d ) ); OUT( Q::numPoints );" % (t, n, n - 1, n - 2, n - 1)
                + (" OUT( Q::weight( %d ) );" % (n - 1) if n <= 5 else ""))
        for kind, ns in (("Equal", range(2, 12)), ("GaussLobatto", range(2, 10)), ("GaussLegendre", (2, 3, 4))):
            for n in ns:
                add({"Spacing"}, "using S = shiva::%sSpacing< %s, %d >; OUT( S::coordinate( %d ) ); OUT( S::template coordinate< %d >() );" % (kind, t, n, n - 1, n - 1))
                add({"LagrangeBasis", "Spacing"}, "using B = shiva::functions::LagrangeBasis< %s, %d, shiva::%sSpacing >; OUT( B::template value< %d >( %s( 0.3 ) ) ); OUT( B::template gradient< 0 >( %s( 0.3 ) ) ); OUT( B::numSupportPoints ); OUT( B::order );" % (
                    t, n - 1, kind, n - 1, t, t))
        for d in range(1, 5):
            b = "shiva::functions::LagrangeBasis< %s, %d, shiva::EqualSpacing >"
            add({"BasisProduct", "LagrangeBasis", "Spacing", "CArray"}, "using P = shiva::functions::BasisProduct< %s, %s >; shiva::CArrayNd< %s, %d > q{}; OUT( ( P::template value< %s >( q ) ) ); OUT( ( P::template gradient< %s >( q )( %d ) ) );" % (
                t, ", ".join(b % (t, 1 + k % 3) for k in range(d)), t, d, ", ".join("1" for _ in range(d)), ", ".join("0" for _ in range(d)), d - 1))
        for d in (1, 2, 3):
            b = ", ".join("shiva::functions::LagrangeBasis< %s, 2, shiva::GaussLobattoSpacing >" % t for _ in range(d))
            c = "shiva::geometry::NCube< %s, %d, -1, 1, 1 >" % (t, d)
            add({"ParentElement", "LagrangeBasis", "Spacing", "NCube", "CArray"}, "using E = shiva::discretizations::finiteElementMethod::ParentElement< %s, %s, %s >; %s const q[%d] = {}; OUT( ( E::template value< %s >( q ) ) ); shiva::CArrayNd< %s, %s > u{}; OUT( E::value( q, u ) ); OUT( E::gradient( q, u )( 0 ) );" % (
                t, c, b, t, d, ", ".join("1" for _ in range(d)), t, ", ".join("3" for _ in range(d))))
        for n in range(0, 17):
            add({"MathUtilities"}, "OUT( ( shiva::mathUtilities::pow< %s, %d >( %s( 1.25 ) ) ) );" % (t, n, t))
    for t in ("int", "long", "unsigned", "char", "short", "unsigned long", "float", "double", "long double", "bool"):
        for r in range(1, 7):
            D = ", ".join(str(1 + k % 2) for k in range(r))
            Z = ", ".join("0" for _ in range(r))
            add({"CArray"}, "shiva::CArrayNd< %s, %s > a{}; a( %s ) = %s( 1 ); OUT( a( %s ) ); OUT( a.template operator()< %s >() ); OUT( a%s ); OUT( a.size() ); OUT( a.template extent< %d >() ); shiva::CArrayViewNd< %s const, %s > v( a.data() ); OUT( v( %s ) );" % (
                t, D, Z, t, Z, Z, "[0]" * r, r - 1, t, D, Z))
    for b in ("int", "long", "unsigned", "short", "long long", "unsigned long", "unsigned char"):
        for r in range(1, 7):
            D = ", ".join(str(1 + k % 3) for k in range(r))
            add({"IndexTypes"}, "shiva::MultiIndexRange< %s, %s > i{}; long n = 0; forRange( i, [&]( auto const & k ) { n = 7 * n %% 9973 + linearIndex( k ); } ); OUT( n ); OUT( i.data[%d] ); shiva::LinearIndex< %s > l = %s( 3 ); ++l; OUT( l );" % (b, D, r - 1, b, b))
    for t in ("float", "double"):
        for d in range(1, 5):
            c = "shiva::geometry::NCube< %s, %d, -1, 1, 1 >" % (t, d)
            s = "shiva::geometry::NSimplex< %s, %d, 0, 1, 1 >" % (t, d)
            for g, h in ((c, "NCube"), (s, "NSimplex")):
                add({h}, "using G = %s; OUT( G::numDims() ); OUT( G::numVertices() ); OUT( G::numEdges() ); OUT( G::numFaces() ); OUT( G::numCells() ); OUT( G::numHyperFaces() );" % g + "".join(" OUT( G::template num%s< %d >() );" % (
                    "MCubes" if h == "NCube" else "MSimplexes", k) for k in range(d + 1)))
    for n in range(0, 13):
        add({"MathUtilities"}, "OUT( ( shiva::mathUtilities::factorial< int, %d >::value ) );" % n + "".join(" OUT( ( shiva::mathUtilities::binomialCoefficient< long, %d, %d >::value ) );" % (n, k) for k in range(0, n + 1, 3)))
    for n in range(1, 17):
        add({"SequenceUtilities"}, "long n = 0; shiva::forSequence< %d >( [&]( auto i ) { n = 5 * n %% 9973 + decltype( i )::value; } ); OUT( n ); OUT( ( shiva::executeSequence< %d >( [&]( auto ... i ) { return ( 0 + ... + decltype( i )::value ); } ) ) );" % (n, n))
    for n in range(1, 7):
        add({"NestedSequenceUtilities"}, "long n = 0; shiva::forNestedSequence< %s >( [&]( auto ... i ) { n = 5 * n %% 9973 + ( 1 + ... + decltype( i )::value ); } ); OUT( n );" % ", ".join("2" for _ in range(n)))
    return out


# what a header gives on its own
ALONE = {}
for _f, _n in SNIPPETS:
    if len(_n) == 1:
        ALONE[next(iter(_n))] = _f


def unit(headers, snippets, number, before=""):
    """A translation unit: the headers in order and a function with the snippets."""
    s = before + "".join("#include %s\n" % (("<%s>" if h[1] else "\"%s\"") % H[h[0]]) for h in headers)
    s += PROLOGUE + "void unit%d()\n{\n" % number
    for t in snippets:
        s += "  { %s }\n" % t
    return s + "}\n"


def main_unit(n):
    return "".join("void unit%d();\n" % k for k in range(n)) + "int main()\n{\n" + "".join("  unit%d();\n" % k for k in range(n)) + "  return 0;\n}\n"


def draw_unit(r, most=6):
    """(headers with repeats in a drawn order, snippets that need no others)"""
    names = list(H)
    pick = r.sample(names, r.randint(1, most))
    if r.random() < 0.5:      # what a snippet with many headers needs
        pick += sorted(r.choice([n for _, n in SNIPPETS if len(n) > 1]))
    rep = [r.choice(pick) for _ in range(r.randint(0, 3))]
    hs = list(dict.fromkeys(pick)) + rep
    r.shuffle(hs)
    g = given(hs)
    able = [f for f, n in SNIPPETS if n <= g]
    sn = [r.choice(able)(r) for _ in range(r.randint(1, 5))] if able else []
    return [(h, r.random() < 0.3) for h in hs], sn
