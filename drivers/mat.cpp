// Driver for qlibs::mat: registers A,B (n x m), P (m x n), Q (m x m), S,T (n x n), each on the heap.
#include "common.hpp"
#include <iostream>
#include <include/mat.hpp>
using namespace qlibs;
static bool gEnd = false;
template <size_t R, size_t C> std::vector<float> flat( const mat<R,C> &x )
{
    std::vector<float> v;
    for ( size_t i = 0; i < R; ++i ) for ( size_t j = 0; j < C; ++j ) v.push_back( x[ i ][ j ] );
    return v;
}
template <size_t R, size_t C> struct Make { static mat<R,C> of( const std::vector<float> &v ) { mat<R,C> x; for ( size_t i = 0; i < R*C; ++i ) x( i ) = v[ i ]; return x; } };
template <> struct Make<2,2> { static mat<2,2> of( const std::vector<float> &v ) { return mat<2,2>( v[0], v[1], v[2], v[3] ); } };
template <> struct Make<2,3> { static mat<2,3> of( const std::vector<float> &v ) { return mat<2,3>( v[0], v[1], v[2], v[3], v[4], v[5] ); } };
template <> struct Make<3,2> { static mat<3,2> of( const std::vector<float> &v ) { return mat<3,2>( v[0], v[1], v[2], v[3], v[4], v[5] ); } };
template <> struct Make<3,3> { static mat<3,3> of( const std::vector<float> &v ) { return mat<3,3>( v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8] ); } };
template <> struct Make<1,1> { static mat<1,1> of( const std::vector<float> &v ) { return mat<1,1>( v[0] ); } };

// an object constructed in storage that holds anything but zeros: the constructor has to set every element
template <typename T, typename... A> T built( A... a )
{
    std::vector<unsigned char> raw( sizeof( T ) + alignof( T ), 0x5A );
    void *p = raw.data(); size_t sp = raw.size();
    T *o = new ( std::align( alignof( T ), sizeof( T ), p, sp ) ) T( a... );
    T r( *o );
    o->~T();
    return r;
}
template <size_t n, size_t m> void session( std::vector<Args> &q )
{
    std::unique_ptr< mat<n,m> > A( new mat<n,m>() ), B( new mat<n,m>() );
    std::unique_ptr< mat<m,n> > P( new mat<m,n>() );
    std::unique_ptr< mat<m,m> > Q( new mat<m,m>() );
    std::unique_ptr< mat<n,n> > S( new mat<n,n>() ), T( new mat<n,n>() );
    for ( Args &a : q ) {
        const std::string op = a.op();
        J ev( op );
        float s = 0.0f;
        bool alias = false; size_t ai = 0;
        auto vec = [ & ]( size_t k ) { std::vector<float> v; for ( size_t i = 0; i < k; ++i ) v.push_back( a.f() ); return v; };
        // a scalar argument is "v x" or "e k": the k-th element of A itself
        auto sc = [ & ]() { if ( a.s() == "e" ) { alias = true; ai = a.u() % ( n*m ); s = (*A)( ai ); } else s = a.f(); };
        if ( op == "new" ) {}
        else if ( op == "add" ) *A = *A + *B;
        else if ( op == "addAssign" ) *A += *B;
        else if ( op == "addSelf" ) *A += *A;
        else if ( op == "sub" ) *A = *A - *B;
        else if ( op == "subAssign" ) *A -= *B;
        else if ( op == "subSelf" ) *A -= *A;
        else if ( op == "mulS" ) { sc(); *A = *A * s; }
        else if ( op == "rmulS" ) { sc(); *A = s * *A; }
        else if ( op == "divS" ) { sc(); *A = *A / s; }
        else if ( op == "addS" ) { sc(); *A = *A + s; }
        else if ( op == "raddS" ) { sc(); *A = s + *A; }
        else if ( op == "subS" ) { sc(); *A = *A - s; }
        else if ( op == "rsubS" ) { sc(); *A = s - *A; }
        else if ( op == "mulAssignS" ) { sc(); if ( alias ) *A *= (*A)( ai ); else *A *= s; }
        else if ( op == "divAssignS" ) { sc(); if ( alias ) *A /= (*A)( ai ); else *A /= s; }
        else if ( op == "addAssignS" ) { sc(); if ( alias ) *A += (*A)( ai ); else *A += s; }
        else if ( op == "subAssignS" ) { sc(); if ( alias ) *A -= (*A)( ai ); else *A -= s; }
        else if ( op == "neg" ) *A = -*A;
        else if ( op == "preInc" ) *B = ++*A;
        else if ( op == "postInc" ) *B = (*A)++;
        else if ( op == "preDec" ) *B = --*A;
        else if ( op == "postDec" ) *B = (*A)--;
        else if ( op == "trans" ) *P = !*A;
        else if ( op == "mulAP" ) *S = *A * *P;
        else if ( op == "mulPA" ) *Q = *P * *A;
        else if ( op == "mulSA" ) *A = *S * *A;
        else if ( op == "mulST" ) *S = *S * *T;
        else if ( op == "mulAssignAQ" ) *A *= *Q;
        else if ( op == "mulAssignST" ) *S *= *T;
        else if ( op == "mulAssignSS" ) *S *= *S;
        else if ( op == "inv" ) *S = T->inv();
        else if ( op == "id" ) { s = a.f(); *S = built< mat<n,n> >( MAT_IDENTITY, s ); }
        else if ( op == "idDef" ) { *S = built< mat<n,n> >( MAT_IDENTITY ); }
        else if ( op == "all" ) { s = a.f(); *S = built< mat<n,n> >( MAT_ALL, s ); }
        else if ( op == "zero" ) { *S = built< mat<n,n> >( MAT_ZERO ); }
        else if ( op == "default" ) { *A = built< mat<n,m> >(); }
        else if ( op == "copyCtor" ) { A.reset( new mat<n,m>( *B ) ); }
        else if ( op == "asg" ) { *A = *B; }
        else if ( op == "asgSelf" ) { *A = *A; }
        else if ( op == "loadST" && n == m ) { for ( size_t k = 0; k < n*n; ++k ) { (*S)( k ) = (*A)( k ); (*T)( k ) = (*B)( k ); } }
        else if ( op == "loadTA" && n == m ) { for ( size_t k = 0; k < n*n; ++k ) (*T)( k ) = (*A)( k ); }
        else if ( op == "storeA" && n == m ) { for ( size_t k = 0; k < n*n; ++k ) (*A)( k ) = (*S)( k ); }
        else if ( op == "storeB" && n == m ) { for ( size_t k = 0; k < n*n; ++k ) (*B)( k ) = (*S)( k ); }
        else if ( op == "loadB" && n == m ) { for ( size_t k = 0; k < n*n; ++k ) (*B)( k ) = (*P)( k ); }
        else if ( op == "ST" ) { mat<n,n> t( *S ); *S = *T; *T = t; }
        else if ( op == "setRC" || op == "setIdx" || op == "setBr" ) {
            const size_t k = a.u() % ( n*m ); s = a.f();
            if ( op == "setRC" ) (*A)( k / m, k % m ) = s; else if ( op == "setIdx" ) (*A)( k ) = s; else (*A)[ k / m ][ k % m ] = s;
            ev.i( "q", k );
        }
        else if ( op == "get" ) {
            const size_t k = a.u() % ( n*m );
            const mat<n,m> &c = *A;
            ev.i( "q", k ).f( "rc", (*A)( k / m, k % m ) ).f( "idx", (*A)( k ) ).f( "cidx", c( k ) ).f( "br", (*A)[ k / m ][ k % m ] ).f( "cbr", c[ k / m ][ k % m ] );
        }
        else if ( op == "addAA" ) *A = *A + *A;
        else if ( op == "subAA" ) *A = *A - *A;
        else if ( op == "mulSS" ) *S = *S * *S;
        else if ( op == "invT" ) *T = T->inv();
        else if ( op == "show" ) {      // what display() writes, read back row by row
            std::ostringstream os;
            std::streambuf *old = std::cout.rdbuf( os.rdbuf() );
            A->display();
            std::cout.rdbuf( old );
            std::istringstream is( os.str() ); std::string l; std::vector<float> v; size_t rows = 0; bool rect = true;
            while ( std::getline( is, l ) ) {
                std::istringstream ls( l ); float x; size_t k = 0;
                while ( ls >> x ) { v.push_back( x ); ++k; }
                if ( k != 0 ) { ++rows; rect = rect && ( m == k ); }
            }
            ev.i( "rows", rows ).b( "rect", rect ).fs( "v", v );
        }
        else if ( op == "norm" ) ev.f( "y", A->normInf() );
        else if ( op == "setT" ) { auto v = vec( n*n ); *T = Make<n,n>::of( v ); ev.fs( "v", v ); }
        else if ( op == "setA" ) { auto v = vec( n*m ); *A = Make<n,m>::of( v ); ev.fs( "v", v ); }
        else if ( op == "setB" ) { auto v = vec( n*m ); *B = Make<n,m>::of( v ); ev.fs( "v", v ); }
        else std::exit( 3 );
        ev.i( "n", n ).i( "m", m ).f( "s", s ).fs( "A", flat( *A ) ).fs( "B", flat( *B ) ).fs( "P", flat( *P ) ).fs( "Q", flat( *Q ) ).fs( "S", flat( *S ) ).fs( "T", flat( *T ) );
    }
}
static void dispatch( std::vector<Args> &q )
{
    if ( q.empty() ) return;
    const int n = static_cast<int>( q[ 0 ].i() ), m = static_cast<int>( q[ 0 ].i() );
    switch ( n*10 + m ) {
        case 11: session<1,1>( q ); break; case 13: session<1,3>( q ); break; case 22: session<2,2>( q ); break;
        case 23: session<2,3>( q ); break; case 32: session<3,2>( q ); break; case 33: session<3,3>( q ); break;
        case 31: session<3,1>( q ); break; case 44: session<4,4>( q ); break; case 42: session<4,2>( q ); break;
        case 88: session<8,8>( q ); break; case 79: session<7,9>( q ); break; case 94: session<9,4>( q ); break; case 187: session<17,17>( q ); break;
        case 55: session<5,5>( q ); break; case 25: session<2,5>( q ); break; case 61: session<6,1>( q ); break;
        default: std::exit( 3 );
    }
}
int main()
{
    Args a;
    std::vector<Args> q;
    while ( nextOp( a ) ) {
        if ( a.op() == "new" ) { dispatch( q ); q.clear(); }
        q.push_back( a );
    }
    dispatch( q );
    return 0;
}
