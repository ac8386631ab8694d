// Driver for qlibs::interp1: tables live in exactly sized heap blocks.
#include "common.hpp"
#include <include/interp1.hpp>
using namespace qlibs;
int main()
{
    Args a;
    std::unique_ptr<interp1> p;
    std::vector< std::unique_ptr< Buf<float> > > mem;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "redata" ) {     // the same two arrays with other contents, handed over again
            Buf<float> &y = *mem[ mem.size() - 1U ], &x = *mem[ mem.size() - 2U ];
            const size_t n = a.u();
            if ( n != x.n ) return 3;
            for ( size_t k = 0; k < n; ++k ) x[ k ] = a.f();
            for ( size_t k = 0; k < n; ++k ) y[ k ] = a.f();
            const bool ok = p->setData( x.p, y.p, n );
            J( "data" ).b( "null", false ).fs( "x", x.vec() ).fs( "y", y.vec() ).b( "ok", ok );
        }
        else if ( op == "new" || op == "data" ) {    // null? n x... y...
            const int nul = a.i();                  // 1: x null, 2: y null
            const size_t n = a.u();
            std::unique_ptr< Buf<float> > x( new Buf<float>( n ) ), y( new Buf<float>( n ) );
            for ( size_t k = 0; k < n; ++k ) (*x)[ k ] = a.f();
            for ( size_t k = 0; k < n; ++k ) (*y)[ k ] = a.f();
            bool ok = true;
            const float *px = nul == 1 ? nullptr : x->p, *py = nul == 2 ? nullptr : y->p;
            if ( op == "new" ) p.reset( new interp1( px, py, n ) );
            else ok = p->setData( px, py, n );
            J( op ).b( "null", px == nullptr || py == nullptr ).fs( "x", x->vec() ).fs( "y", y->vec() ).b( "ok", ok );
            mem.push_back( std::move( x ) ); mem.push_back( std::move( y ) );
        }
        else if ( op == "method" ) { const int m = a.i(); const bool ok = p->setMethod( static_cast<interp1Method>( m ) ); J( op ).i( "m", m ).b( "ok", ok ); }
        else if ( op == "get" ) { const float x = a.f(); const float y = p->get( x ); J( op ).f( "x", x ).f( "y", y ); }
        else if ( op == "geti" ) { const int x = a.i(); const float y = p->get( x ); J( "get" ).f( "x", x ).f( "y", y ); }
        else return 3;
    }
    return 0;
}
