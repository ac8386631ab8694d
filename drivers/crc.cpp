#include "common.hpp"
#include <qlibs.h>
#include <map>
using namespace qlibs;

#define N8(n)  { #n, [](const void*p,size_t l){ return static_cast<uint32_t>( crc::n( p, l ) ); } }
typedef uint32_t (*fn)( const void*, size_t );
static const std::map<std::string, fn> named = {
    N8(crc8),N8(crc8_CDMA2000),N8(crc8_DARC),N8(crc8_DVS_S2),N8(crc8_EBU),N8(crc8_I_CODE),N8(crc8_ITU),N8(crc8_MAXIM),N8(crc8_ROHC),N8(crc8_WCDMA),
    N8(crc16_CCITT_FALSE),N8(crc16_ARC),N8(crc16_AUG_CCITT),N8(crc16_BUYPASS),N8(crc16_CDMA2000),N8(crc16_DDS_110),N8(crc16_DECT_R),N8(crc16_DECT_X),
    N8(crc16_DNP),N8(crc16_EN_13757),N8(crc16_GENIBUS),N8(crc16_MAXIM),N8(crc16_MCRF4XX),N8(crc16_RIELLO),N8(crc16_T10_DIF),N8(crc16_TELEDISK),
    N8(crc16_TMS37157),N8(crc16_USB),N8(crc16_A),N8(crc16_KERMIT),N8(crc16_MODBUS),N8(crc16_X_25),N8(crc16_XMODEM),
    N8(crc32),N8(crc32_BZIP2),N8(crc32_C),N8(crc32_D),N8(crc32_JAMCRC),N8(crc32_MPEG2),N8(crc32_POSIX),N8(crc32_Q),N8(crc32_XFER) };

static std::vector<uint8_t> bytes( const std::string &h )   // hex, "-" = empty, "~" = null, "*N.S" N pseudo-random bytes
{
    std::vector<uint8_t> v;
    if ( h[ 0 ] == '*' ) {
        unsigned long n = 0, s = 0; std::sscanf( h.c_str(), "*%lu.%lu", &n, &s );
        uint32_t x = static_cast<uint32_t>( s )*2654435761U + 1U;
        for ( unsigned long k = 0; k < n; ++k ) { x = x*1664525U + 1013904223U; v.push_back( static_cast<uint8_t>( x >> 24 ) ); }
    }
    else if ( h != "-" && h != "~" ) for ( size_t k = 0; k + 1 < h.size(); k += 2 ) v.push_back( static_cast<uint8_t>( std::strtoul( h.substr( k, 2 ).c_str(), nullptr, 16 ) ) );
    return v;
}

int main()
{
    Args a;
    while ( nextOp( a ) ) {
        if ( a.op() == "new" ) { J( "new" ); continue; }
        if ( a.op() == "named" ) {
            const std::string nm = a.s(), h = a.s();
            const std::vector<uint8_t> v = bytes( h );
            Buf<uint8_t> m( v.size() ); if ( !v.empty() ) std::memcpy( m.p, v.data(), v.size() );
            uint8_t dummy = 7;
            const uint32_t r = ( h == "~" ) ? named.at( nm )( nullptr, 4 ) : named.at( nm )( v.empty() ? &dummy : m.p, v.size() );
            J( "named" ).s( "name", nm ).is( "msg", v ).u( "r", r );
        }
        else if ( a.op() == "generic" ) { // mode poly init refIn refOut xor msg
            const int mode = static_cast<int>( a.i() );
            const uint32_t poly = static_cast<uint32_t>( a.u() ), init = static_cast<uint32_t>( a.u() );
            const bool ri = a.i() != 0, ro = a.i() != 0;
            const uint32_t x = static_cast<uint32_t>( a.u() );
            const std::string h = a.s();
            const std::vector<uint8_t> v = bytes( h );
            Buf<uint8_t> m( v.size() ); if ( !v.empty() ) std::memcpy( m.p, v.data(), v.size() );
            uint8_t dummy = 7;
            const crcMode md = mode == 8 ? crcMode::CRC8 : mode == 16 ? crcMode::CRC16 : mode == 32 ? crcMode::CRC32 : static_cast<crcMode>( 3 );
            const uint32_t r = ( h == "~" ) ? crc::generic( md, nullptr, 4, poly, init, ri, ro, x ) : crc::generic( md, v.empty() ? &dummy : m.p, v.size(), poly, init, ri, ro, x );
            J( "generic" ).i( "mode", mode ).u( "poly", poly ).u( "init", init ).b( "refIn", ri ).b( "refOut", ro ).u( "xor", x ).is( "msg", v ).u( "r", r );
        }
        else return 3;
    }
    return 0;
}
