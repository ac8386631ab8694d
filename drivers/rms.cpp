// new|setup n haswindow [1: array overload for n in 8,16] ; par lambda alpha ; x v
#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;
int main()
{
    Args a; std::unique_ptr<rms> r; std::vector<std::unique_ptr<Buf<float>>> keep; float w8[ 8 ], w16[ 16 ];
    while ( nextOp( a ) ) {
        const std::string op = a.op(); J j( op );
        if ( op == "new" || op == "setup" ) {
            const size_t n = a.u(); const bool w = a.i() != 0; const long long how = a.more() ? a.i() : 0; const bool arr = how == 1;
            if ( op == "new" ) { r.reset( new rms ); }
            if ( !( how == 2 && !keep.empty() && keep.back()->n == n ) ) keep.emplace_back( new Buf<float>( n ? n : 1 ) );     // 2: the same window again
            bool ok;
            if ( arr && n == 8 ) ok = r->setup( w8 ); else if ( arr && n == 16 ) ok = r->setup( w16 );
            else ok = r->setup( w ? keep.back()->p : nullptr, n );
            j.i( "n", n ).b( "win", w || ( arr && ( n == 8 || n == 16 ) ) ).b( "ok", ok );
        }
        else if ( op == "par" ) { const float l = a.f(), al = a.f(); j.f( "l", l ).f( "a", al ).b( "ok", r->setParams( l, al ) ); }
        else if ( op == "x" ) { const float x = a.f(); j.f( "x", x ).f( "y", r->update( x ) ); }
        else return 3;
    }
    return 0;
}
