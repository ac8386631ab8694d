#include "common.hpp"
#include <qlibs.h>
using namespace qlibs;

int main()
{
    Args a;
    std::unique_ptr<bitfield> bf;
    Buf<uint8_t> area;
    while ( nextOp( a ) ) {
        const std::string op = a.op();
        if ( op == "new" || op == "setup" ) { // new bytes pattern
            const size_t n = static_cast<size_t>( a.u() );
            unsigned pat = static_cast<unsigned>( a.u() );
            const bool again = op == "setup";
            area.reset( n );
            for ( size_t k = 0; k < n; ++k ) { area[ k ] = static_cast<uint8_t>( pat ); pat = ( pat < 256U ) ? pat : ( pat*1103515245U + 12345U ) | 256U; if ( pat >= 256U ) area[ k ] = static_cast<uint8_t>( pat >> 13 ); }
            if ( !again ) bf.reset( new bitfield );
            const bool ok = bf->setup( area.p, n );
            J( "new" ).i( "n", static_cast<long long>( n ) ).b( "ok", ok ).is( "area", area.vec() );
            continue;
        }
        if ( op == "blank" ) {
            bitfield z; uint32_t w[ 2 ] = { 0, 0 };
            std::vector<int> oks;
            const int mode = static_cast<int>( a.i() );
            if ( mode == 1 ) oks.push_back( z.setup( nullptr, 8U ) );
            if ( mode == 2 ) oks.push_back( z.setup( w, 0U ) );
            oks.push_back( z.clearAll() ); oks.push_back( z.setAll() ); oks.push_back( z.setBit( 0 ) ); oks.push_back( z.clearBit( 0 ) );
            oks.push_back( z.toggleBit( 0 ) ); oks.push_back( z.readBit( 0 ) ); oks.push_back( z.writeBit( 0, true ) );
            oks.push_back( z.readUINTn( 0, 8 ) != 0U ); oks.push_back( z.writeUINTn( 0, 8, 5U ) ); oks.push_back( z.writeFloat( 0, 1.0F ) );
            oks.push_back( z.readFloat( 0 ) != 0.0F ); oks.push_back( z.dump( w, 4U ) != nullptr ); oks.push_back( ( w[ 0 ] | w[ 1 ] ) != 0U );
            J( "blank" ).is( "oks", oks );
            continue;
        }
        J j( op );
        if ( op == "setall" ) j.b( "ok", bf->setAll() );
        else if ( op == "clrall" ) j.b( "ok", bf->clearAll() );
        else if ( op == "dump" ) {
            const size_t n = static_cast<size_t>( a.u() );
            std::vector<uint8_t> dst( area.n + 8U, 170U );
            void *r = bf->dump( a.more() ? nullptr : dst.data(), n );
            if ( a.more() ) { j.o = "{\"op\":\"dump\""; j.i( "n", 1 << 20 ).b( "ok", r != nullptr ).is( "dst", dst ); }
            else j.i( "n", static_cast<long long>( n ) ).b( "ok", r == dst.data() && r != nullptr ).is( "dst", dst );
        }
        else {
            const size_t k = static_cast<size_t>( a.u() );
            j.i( "k", static_cast<long long>( k > 1000000U ? 1000000U : k ) );
            if ( op == "set" ) j.b( "ok", bf->setBit( k ) );
            else if ( op == "clr" ) j.b( "ok", bf->clearBit( k ) );
            else if ( op == "tog" ) j.b( "ok", bf->toggleBit( k ) );
            else if ( op == "wr" ) { const int v = static_cast<int>( a.i() ); j.i( "v", v ).b( "ok", bf->writeBit( k, 0 != v ) ); }
            else if ( op == "rd" ) j.i( "v", bf->readBit( k ) ? 1 : 0 );
            else if ( op == "wn" ) { const size_t w = static_cast<size_t>( a.u() ); const uint32_t v = static_cast<uint32_t>( a.u() ); j.i( "w", static_cast<long long>( w ) ).u( "v", v ).b( "ok", bf->writeUINTn( k, w, v ) ); }
            else if ( op == "rn" ) { const size_t w = static_cast<size_t>( a.u() ); j.i( "w", static_cast<long long>( w ) ).u( "v", bf->readUINTn( k, w ) ); }
            else if ( op == "wf" ) { const uint32_t v = static_cast<uint32_t>( a.u() ); float f; std::memcpy( &f, &v, 4 ); j.u( "v", v ).b( "ok", bf->writeFloat( k, f ) ); }
            else if ( op == "rf" ) { const float f = bf->readFloat( k ); uint32_t v; std::memcpy( &v, &f, 4 ); j.u( "v", v ); }
            else return 3;
        }
        j.is( "area", area.vec() );
    }
    return 0;
}
