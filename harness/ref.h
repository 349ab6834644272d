// Independent implementation of the E57 file format: a strict parser/decoder and a file
// synthesiser. Written from the format description (ASTM E2807 layout as documented by the
// headers of the library), sharing no code with it.
#pragma once
#include <algorithm>
#include <functional>

#include "model.h"

namespace ref
{
   using model::Column;
   using model::Node;
   using model::T;
   using mon::bytes;
   using mon::fmt;
   using mon::Rng;
   using std::map;
   using std::string;
   using std::vector;

   struct Bad
   {
      string key, detail;
   };
   [[noreturn]] inline void bad( const string &k, const string &d = "" )
   {
      throw Bad{ k, d };
   }

   // ------------------------------------------------------------------ pages
   inline uint32_t crc32c( const char *p, size_t n )
   {
      static uint32_t table[8][256];
      static const bool ready = [] {
         for ( uint32_t i = 0; i < 256; i++ )
         {
            uint32_t c = i;
            for ( int k = 0; k < 8; k++ )
            {
               c = ( c & 1 ) ? ( c >> 1 ) ^ 0x82F63B78u : c >> 1;
            }
            table[0][i] = c;
         }
         return true;
      }();
      (void)ready;
      uint32_t c = 0xFFFFFFFFu;
      for ( size_t k = 0; k < n; k++ )
      {
         c = table[0][( c ^ uint8_t( p[k] ) ) & 0xff] ^ ( c >> 8 );
      }
      return ~c;
   }
   inline uint64_t toPhys( uint64_t l )
   {
      return l / 1020 * 1024 + l % 1020;
   }
   inline uint64_t toLog( uint64_t p )
   {
      return p / 1024 * 1020 + std::min<uint64_t>( p % 1024, 1020 );
   }
   inline void sealPage( char *page )
   {
      const uint32_t c = crc32c( page, 1020 );
      page[1020] = char( c >> 24 ); // most significant byte first
      page[1021] = char( c >> 16 );
      page[1022] = char( c >> 8 );
      page[1023] = char( c );
   }
   inline bool pageOk( const char *page )
   {
      char t[1024];
      memcpy( t, page, 1024 );
      sealPage( t );
      return memcmp( t, page, 1024 ) == 0;
   }
   inline bytes addPages( const bytes &logical )
   {
      const size_t n = ( logical.size() + 1019 ) / 1020;
      bytes out( n * 1024, 0 );
      for ( size_t k = 0; k < n; k++ )
      {
         memcpy( &out[k * 1024], logical.data() + k * 1020, std::min<size_t>( 1020, logical.size() - k * 1020 ) );
         sealPage( &out[k * 1024] );
      }
      return out;
   }
   inline bytes stripPages( const bytes &phys, bool check )
   {
      if ( phys.size() % 1024 )
      {
         bad( "file-size", fmt( "%zu bytes is not a whole number of pages", phys.size() ) );
      }
      bytes out;
      out.reserve( phys.size() / 1024 * 1020 );
      for ( size_t k = 0; k < phys.size(); k += 1024 )
      {
         if ( check && !pageOk( &phys[k] ) )
         {
            bad( "page-checksum", fmt( "page %zu of %zu", k / 1024, phys.size() / 1024 ) );
         }
         out.append( phys, k, 1020 );
      }
      return out;
   }

   template <class V> V rd( const bytes &b, uint64_t at )
   {
      if ( at > b.size() || b.size() - at < sizeof( V ) )
      {
         bad( "out-of-file", fmt( "offset %" PRIu64 " of %zu", at, b.size() ) );
      }
      V v = 0;
      for ( size_t k = 0; k < sizeof( V ); k++ )
      {
         v |= V( V( uint8_t( b[at + k] ) ) << ( 8 * k ) );
      }
      return v;
   }
   template <class V> void wr( bytes &b, V v )
   {
      for ( size_t k = 0; k < sizeof( V ); k++ )
      {
         b += char( uint64_t( v ) >> ( 8 * k ) );
      }
   }
   template <class V> void wrAt( bytes &b, uint64_t at, V v )
   {
      for ( size_t k = 0; k < sizeof( V ); k++ )
      {
         b[at + k] = char( uint64_t( v ) >> ( 8 * k ) );
      }
   }

   // -------------------------------------------------------------------- XML
   struct Elem
   {
      string name;
      vector<std::pair<string, string>> attrs;
      vector<Elem> kids;
      string text;
      const string *attr( const string &n ) const
      {
         for ( auto &a : attrs )
         {
            if ( a.first == n )
            {
               return &a.second;
            }
         }
         return nullptr;
      }
   };
   // strict parser of the XML subset an E57 file may use
   struct XmlParser
   {
      const string &s;
      size_t p = 0;
      int depth = 0;
      explicit XmlParser( const string &t ) : s( t )
      {
      }
      [[noreturn]] void err( const string &m )
      {
         bad( "xml", fmt( "%s at %zu: %s", m.c_str(), p, mon::quote( s.substr( p, 40 ) ).c_str() ) );
      }
      bool look( const char *t )
      {
         return s.compare( p, strlen( t ), t ) == 0;
      }
      bool eat( const char *t )
      {
         if ( look( t ) )
         {
            p += strlen( t );
            return true;
         }
         return false;
      }
      void ws()
      {
         while ( p < s.size() && ( s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r' ) )
         {
            p++;
         }
      }
      uint32_t utf8()
      {
         if ( p >= s.size() )
         {
            err( "unexpected end" );
         }
         const uint8_t c = uint8_t( s[p] );
         int n = c < 0x80 ? 0 : c >= 0xC2 && c <= 0xDF ? 1 : ( c & 0xF0 ) == 0xE0 ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : -1;
         if ( n < 0 || p + size_t( n ) >= s.size() )
         {
            err( "bad UTF-8" );
         }
         uint32_t v = n == 0 ? c : c & ( 0x3F >> n );
         for ( int k = 1; k <= n; k++ )
         {
            const uint8_t d = uint8_t( s[p + size_t( k )] );
            if ( ( d & 0xC0 ) != 0x80 )
            {
               err( "bad UTF-8" );
            }
            v = ( v << 6 ) | ( d & 0x3F );
         }
         static const uint32_t least[] = { 0, 0x80, 0x800, 0x10000 };
         if ( v < least[n] || v > 0x10FFFF )
         {
            err( "bad UTF-8" );
         }
         return v;
      }
      static bool legal( uint32_t c )
      {
         return c == 9 || c == 10 || c == 13 || ( c >= 0x20 && c <= 0xD7FF ) || ( c >= 0xE000 && c <= 0xFFFD ) || ( c >= 0x10000 && c <= 0x10FFFF );
      }
      // one character of content with line ends normalised
      void ch( string &out )
      {
         if ( p < s.size() && s[p] == '\r' )
         {
            p++;
            if ( p < s.size() && s[p] == '\n' )
            {
               p++;
            }
            out += '\n';
            return;
         }
         const size_t at = p;
         const uint32_t c = utf8();
         if ( !legal( c ) )
         {
            err( fmt( "character U+%04X not allowed", c ) );
         }
         size_t n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
         out.append( s, at, n );
         p += n;
      }
      void entity( string &out )
      {
         p++; // &
         if ( eat( "lt;" ) )
            out += '<';
         else if ( eat( "gt;" ) )
            out += '>';
         else if ( eat( "amp;" ) )
            out += '&';
         else if ( eat( "quot;" ) )
            out += '"';
         else if ( eat( "apos;" ) )
            out += '\'';
         else if ( eat( "#" ) )
         {
            const bool hex = eat( "x" );
            uint32_t v = 0;
            int digits = 0;
            while ( p < s.size() && ( hex ? isxdigit( uint8_t( s[p] ) ) : isdigit( uint8_t( s[p] ) ) ) && v < 0x110000 )
            {
               const int d = isdigit( uint8_t( s[p] ) ) ? s[p] - '0' : tolower( s[p] ) - 'a' + 10;
               v = v * ( hex ? 16 : 10 ) + uint32_t( d );
               p++;
               digits++;
            }
            if ( !digits || !eat( ";" ) || !legal( v ) )
            {
               err( "bad character reference" );
            }
            model::Gen::utf8( out, v );
         }
         else
         {
            err( "unknown entity" );
         }
      }
      string nameTok()
      {
         const size_t a = p;
         auto start = []( uint8_t c ) { return isalpha( c ) || c == '_' || c >= 0x80; };
         auto in = []( uint8_t c ) { return isalnum( c ) || c == '_' || c == '-' || c == '.' || c >= 0x80; };
         int colons = 0;
         bool first = true;
         while ( p < s.size() )
         {
            const uint8_t c = uint8_t( s[p] );
            if ( first ? start( c ) : in( c ) )
            {
               first = false;
            }
            else if ( c == ':' && !first && colons == 0 )
            {
               colons++;
               first = true;
            }
            else
            {
               break;
            }
            p++;
         }
         if ( p == a || first )
         {
            err( "bad name" );
         }
         return s.substr( a, p - a );
      }
      void misc()
      {
         for ( ;; )
         {
            ws();
            if ( look( "<!--" ) )
            {
               comment();
            }
            else if ( look( "<?" ) )
            {
               pi();
            }
            else
            {
               return;
            }
         }
      }
      void comment()
      {
         p += 4;
         const size_t e = s.find( "--", p );
         if ( e == string::npos || s.compare( e, 3, "-->" ) != 0 )
         {
            err( "bad comment" );
         }
         p = e + 3;
      }
      void pi()
      {
         const size_t e = s.find( "?>", p );
         if ( e == string::npos )
         {
            err( "bad processing instruction" );
         }
         p = e + 2;
      }
      Elem element()
      {
         if ( ++depth > 10000 )
         {
            err( "too deep" );
         }
         Elem el;
         if ( !eat( "<" ) )
         {
            err( "expected <" );
         }
         el.name = nameTok();
         for ( ;; )
         {
            const size_t b = p;
            ws();
            if ( eat( "/>" ) )
            {
               depth--;
               return el;
            }
            if ( eat( ">" ) )
            {
               break;
            }
            if ( b == p )
            {
               err( "expected space" );
            }
            const string an = nameTok();
            ws();
            if ( !eat( "=" ) )
            {
               err( "expected =" );
            }
            ws();
            if ( p >= s.size() || ( s[p] != '"' && s[p] != '\'' ) )
            {
               err( "expected quote" );
            }
            const char q = s[p++];
            string v;
            while ( p < s.size() && s[p] != q )
            {
               if ( s[p] == '<' )
               {
                  err( "< in attribute" );
               }
               if ( s[p] == '&' )
               {
                  entity( v );
               }
               else if ( s[p] == '\t' || s[p] == '\n' || s[p] == '\r' )
               {
                  string t;
                  ch( t );
                  v += ' ';
               }
               else
               {
                  ch( v );
               }
            }
            if ( p >= s.size() )
            {
               err( "unterminated attribute" );
            }
            p++;
            if ( el.attr( an ) )
            {
               err( "duplicate attribute" );
            }
            el.attrs.emplace_back( an, v );
         }
         for ( ;; )
         {
            if ( p >= s.size() )
            {
               err( "unexpected end" );
            }
            if ( s[p] == '<' )
            {
               if ( eat( "<![CDATA[" ) )
               {
                  while ( !look( "]]>" ) )
                  {
                     ch( el.text );
                  }
                  p += 3;
               }
               else if ( look( "<!--" ) )
               {
                  comment();
               }
               else if ( look( "<?" ) )
               {
                  pi();
               }
               else if ( eat( "</" ) )
               {
                  if ( nameTok() != el.name )
                  {
                     err( "mismatched end tag" );
                  }
                  ws();
                  if ( !eat( ">" ) )
                  {
                     err( "bad end tag" );
                  }
                  depth--;
                  return el;
               }
               else
               {
                  el.kids.push_back( element() );
               }
            }
            else if ( s[p] == '&' )
            {
               entity( el.text );
            }
            else if ( look( "]]>" ) )
            {
               err( "]]> in text" );
            }
            else
            {
               ch( el.text );
            }
         }
      }
      Elem document()
      {
         if ( look( "\xEF\xBB\xBF" ) )
         {
            p += 3;
         }
         misc();
         Elem e = element();
         misc();
         if ( p != s.size() )
         {
            err( "content after the root element" );
         }
         return e;
      }
   };

   // ------------------------------------------------------------------ parser
   struct Section
   {
      uint64_t start, end; // logical
      string what;
   };
   struct File
   {
      Node root;
      vector<std::pair<string, string>> ns; // extensions in order; "" is the default
      vector<Section> sections;
      vector<Section> needed; // what has to be read to get at all contents (logical)
      bytes xml;
      uint64_t pages = 0;
      uint64_t dataPackets = 0, indexPackets = 0, emptyPackets = 0;
   };

   struct Parser
   {
      bytes log;
      uint64_t physSize = 0;
      File f;

      static string trim( const string &t )
      {
         const size_t a = t.find_first_not_of( " \t\r\n" );
         return a == string::npos ? "" : t.substr( a, t.find_last_not_of( " \t\r\n" ) - a + 1 );
      }
      static int64_t integer( const string &t0, const char *what )
      {
         const string t = trim( t0 );
         size_t k = !t.empty() && ( t[0] == '-' || t[0] == '+' ) ? 1 : 0;
         if ( k >= t.size() || t.find_first_not_of( "0123456789", k ) != string::npos )
         {
            bad( "number", string( what ) + ": " + mon::quote( t0 ) );
         }
         errno = 0;
         const int64_t v = strtoll( t.c_str(), nullptr, 10 );
         if ( errno )
         {
            bad( "number", string( what ) + " out of range: " + t );
         }
         return v;
      }
      static double real( const string &t0, const char *what )
      {
         const string t = trim( t0 );
         if ( t.empty() || t.find_first_not_of( "0123456789+-.eE" ) != string::npos )
         {
            bad( "number", string( what ) + ": " + mon::quote( t0 ) );
         }
         char *e = nullptr;
         const double v = strtod( t.c_str(), &e );
         if ( *e || !std::isfinite( v ) )
         {
            bad( "number", string( what ) + ": " + mon::quote( t0 ) );
         }
         return v;
      }
      uint64_t offsetAttr( const Elem &e, const char *a )
      {
         const string *v = e.attr( a );
         if ( !v )
         {
            bad( "attribute-missing", e.name + " lacks " + a );
         }
         const int64_t n = integer( *v, a );
         if ( n < 0 )
         {
            bad( "number", string( a ) + " negative" );
         }
         return uint64_t( n );
      }
      uint64_t logicalOffset( uint64_t phys, const char *what )
      {
         if ( phys >= physSize || phys % 1024 >= 1020 )
         {
            bad( "offset", fmt( "%s at physical %" PRIu64 " of %" PRIu64, what, phys, physSize ) );
         }
         return toLog( phys );
      }
      void checkName( const string &n )
      {
         const size_t c = n.find( ':' );
         if ( c != string::npos )
         {
            const string pre = n.substr( 0, c );
            for ( auto &x : f.ns )
            {
               if ( x.first == pre )
               {
                  return;
               }
            }
            bad( "undeclared-prefix", n );
         }
      }
      void noText( const Elem &e )
      {
         if ( !trim( e.text ).empty() )
         {
            bad( "text-in-container", e.name + ": " + mon::quote( e.text.substr( 0, 40 ) ) );
         }
      }
      void onlyAttrs( const Elem &e, std::initializer_list<const char *> ok )
      {
         for ( auto &a : e.attrs )
         {
            bool known = a.first == "type";
            for ( auto k : ok )
            {
               known = known || a.first == k;
            }
            if ( !known && a.first.compare( 0, 5, "xmlns" ) != 0 )
            {
               bad( "attribute-unknown", e.name + " has " + a.first );
            }
         }
      }
      Node node( const Elem &e, bool inProto )
      {
         Node n;
         n.name = e.name;
         checkName( e.name );
         const string *ty = e.attr( "type" );
         if ( !ty )
         {
            bad( "attribute-missing", e.name + " lacks type" );
         }
         if ( *ty == "Structure" || *ty == "Vector" )
         {
            n.type = *ty == "Structure" ? T::Structure : T::Vector;
            noText( e );
            onlyAttrs( e, { "allowHeterogeneousChildren" } );
            if ( n.type == T::Vector )
            {
               if ( auto a = e.attr( "allowHeterogeneousChildren" ) )
               {
                  const int64_t v = integer( *a, "allowHeterogeneousChildren" );
                  if ( v != 0 && v != 1 )
                  {
                     bad( "number", "allowHeterogeneousChildren" );
                  }
                  n.hetero = v == 1;
               }
            }
            std::set<string> seen;
            for ( auto &k : e.kids )
            {
               n.kids.push_back( node( k, inProto ) );
               if ( n.type == T::Structure && !seen.insert( k.name ).second )
               {
                  bad( "duplicate-name", k.name );
               }
            }
            return n;
         }
         if ( *ty == "CompressedVector" )
         {
            if ( inProto )
            {
               bad( "prototype", "CompressedVector inside a prototype" );
            }
            return cv( e );
         }
         if ( *ty == "Blob" )
         {
            if ( inProto )
            {
               bad( "prototype", "Blob inside a prototype" );
            }
            return blob( e );
         }
         if ( !e.kids.empty() )
         {
            bad( "children-of-leaf", e.name );
         }
         if ( *ty == "Integer" || *ty == "ScaledInteger" )
         {
            n.type = *ty == "Integer" ? T::Integer : T::Scaled;
            onlyAttrs( e, { "minimum", "maximum", "scale", "offset" } );
            if ( auto a = e.attr( "minimum" ) )
            {
               n.imin = integer( *a, "minimum" );
            }
            if ( auto a = e.attr( "maximum" ) )
            {
               n.imax = integer( *a, "maximum" );
            }
            if ( n.type == T::Scaled )
            {
               if ( auto a = e.attr( "scale" ) )
               {
                  n.scale = real( *a, "scale" );
               }
               if ( auto a = e.attr( "offset" ) )
               {
                  n.offset = real( *a, "offset" );
               }
               if ( n.scale == 0 )
               {
                  bad( "scale-zero", e.name );
               }
            }
            else if ( e.attr( "scale" ) || e.attr( "offset" ) )
            {
               bad( "attribute-unknown", e.name );
            }
            n.iv = e.text.empty() ? 0 : integer( e.text, "value" );
            if ( n.imin > n.imax )
            {
               bad( "bounds", e.name );
            }
            if ( n.iv < n.imin || n.iv > n.imax )
            {
               bad( "value-outside-bounds", fmt( "%s = %" PRId64 " not in %" PRId64 "..%" PRId64, e.name.c_str(), n.iv, n.imin, n.imax ) );
            }
         }
         else if ( *ty == "Float" )
         {
            n.type = T::Float;
            onlyAttrs( e, { "minimum", "maximum", "precision" } );
            if ( auto a = e.attr( "precision" ) )
            {
               if ( *a != "single" && *a != "double" )
               {
                  bad( "precision", *a );
               }
               n.single = *a == "single";
            }
            if ( n.single )
            {
               n.fmin = -FLT_MAX;
               n.fmax = FLT_MAX;
            }
            if ( auto a = e.attr( "minimum" ) )
            {
               n.fmin = real( *a, "minimum" );
            }
            if ( auto a = e.attr( "maximum" ) )
            {
               n.fmax = real( *a, "maximum" );
            }
            n.fv = e.text.empty() ? 0 : real( e.text, "value" );
            if ( n.fmin > n.fmax || n.fv < n.fmin || n.fv > n.fmax )
            {
               bad( "value-outside-bounds", fmt( "%s = %.17g not in %.17g..%.17g", e.name.c_str(), n.fv, n.fmin, n.fmax ) );
            }
         }
         else if ( *ty == "String" )
         {
            n.type = T::String;
            onlyAttrs( e, {} );
            n.sv = e.text;
         }
         else
         {
            bad( "type", *ty );
         }
         return n;
      }
      void reserve( uint64_t a, uint64_t b, const string &what )
      {
         if ( b > log.size() )
         {
            bad( "section-outside-file", fmt( "%s %" PRIu64 "..%" PRIu64 " of %zu", what.c_str(), a, b, log.size() ) );
         }
         for ( auto &s : f.sections )
         {
            if ( a < s.end && s.start < b )
            {
               bad( "sections-overlap", fmt( "%s %" PRIu64 "..%" PRIu64 " and %s %" PRIu64 "..%" PRIu64, what.c_str(), a, b, s.what.c_str(), s.start, s.end ) );
            }
         }
         f.sections.push_back( { a, b, what } );
      }
      void zero( uint64_t a, uint64_t b, const char *what )
      {
         for ( ; a < b; a++ )
         {
            if ( rd<uint8_t>( log, a ) != 0 )
            {
               bad( "reserved-not-zero", fmt( "%s at logical %" PRIu64, what, a ) );
            }
         }
      }
      Node blob( const Elem &e )
      {
         Node n( T::Blob, e.name );
         noText( e );
         onlyAttrs( e, { "fileOffset", "length" } );
         if ( !e.kids.empty() )
         {
            bad( "children-of-leaf", e.name );
         }
         const uint64_t at = logicalOffset( offsetAttr( e, "fileOffset" ), "blob" );
         const uint64_t len = offsetAttr( e, "length" );
         if ( rd<uint8_t>( log, at ) != 0 )
         {
            bad( "blob-section-id", e.name );
         }
         zero( at + 1, at + 8, "blob section header" );
         const uint64_t sec = rd<uint64_t>( log, at + 8 );
         if ( sec < 16 + len || sec % 4 )
         {
            bad( "blob-section-length", fmt( "%" PRIu64 " for %" PRIu64 " bytes", sec, len ) );
         }
         reserve( at, at + sec, "blob" );
         n.blob = log.substr( at + 16, len );
         if ( len )
         {
            f.needed.push_back( { at + 16, at + 16 + len, "blob" } );
         }
         return n;
      }
      Node cv( const Elem &e )
      {
         Node n( T::CompressedVector, e.name );
         noText( e );
         onlyAttrs( e, { "fileOffset", "recordCount" } );
         for ( auto &k : e.kids )
         {
            auto &slot = k.name == "prototype" ? n.proto : n.codecs;
            if ( ( k.name != "prototype" && k.name != "codecs" ) || slot )
            {
               bad( "cv-children", k.name );
            }
            slot = std::make_shared<Node>( node( k, true ) );
         }
         if ( !n.proto || !n.codecs )
         {
            bad( "cv-children", "prototype or codecs missing" );
         }
         if ( n.codecs->type != T::Vector || !n.codecs->hetero )
         {
            bad( "cv-codecs", e.name );
         }
         n.records = offsetAttr( e, "recordCount" );
         const uint64_t phys = offsetAttr( e, "fileOffset" );
         auto lv = model::leaves( *n.proto );
         n.cols.resize( lv.size() );
         if ( phys == 0 )
         {
            // never written to: tolerated without records only
            if ( n.records )
            {
               bad( "offset", "records without a section" );
            }
            n.unwritten = true;
            return n;
         }
         section( n, lv, logicalOffset( phys, "compressed vector" ) );
         return n;
      }
      void section( Node &n, const vector<model::Leaf> &lv, uint64_t at )
      {
         if ( rd<uint8_t>( log, at ) != 1 )
         {
            bad( "cv-section-id", fmt( "%u", rd<uint8_t>( log, at ) ) );
         }
         zero( at + 1, at + 8, "compressed vector section header" );
         const uint64_t len = rd<uint64_t>( log, at + 8 );
         const uint64_t dataPhys = rd<uint64_t>( log, at + 16 );
         const uint64_t indexPhys = rd<uint64_t>( log, at + 24 );
         if ( len % 4 || len < 32 )
         {
            bad( "cv-section-length", fmt( "%" PRIu64, len ) );
         }
         reserve( at, at + len, "compressed vector" );
         vector<bytes> streams( lv.size() );
         uint64_t firstData = 0;
         std::set<uint64_t> dataAt, indexAt;
         vector<Section> packetAt;
         vector<vector<size_t>> before; // bytes of each stream before the packet
         struct Entry
         {
            uint64_t rec, phys;
            int level;
         };
         vector<Entry> entries;
         uint64_t p = at + 32;
         while ( p < at + len )
         {
            const uint8_t ty = rd<uint8_t>( log, p );
            const uint64_t plen = uint64_t( rd<uint16_t>( log, p + 2 ) ) + 1;
            if ( plen % 4 || p + plen > at + len )
            {
               bad( "packet-length", fmt( "%" PRIu64 " at logical %" PRIu64, plen, p ) );
            }
            if ( ty == 1 )
            {
               f.dataPackets++;
               packetAt.push_back( { p, p + plen, "data packet" } );
               before.emplace_back();
               for ( auto &st : streams )
               {
                  before.back().push_back( st.size() );
               }
               dataAt.insert( p );
               if ( rd<uint8_t>( log, p + 1 ) & ~1u )
               {
                  bad( "packet-flags", "" );
               }
               const unsigned cnt = rd<uint16_t>( log, p + 4 );
               if ( firstData == 0 )
               {
                  firstData = p;
               }
               if ( cnt != lv.size() && !( cnt == 0 && n.records == 0 ) )
               {
                  bad( "bytestream-count", fmt( "%u for %zu fields", cnt, lv.size() ) );
               }
               uint64_t q = p + 6 + 2 * cnt;
               if ( q > p + plen )
               {
                  bad( "packet-length", "bytestream lengths do not fit" );
               }
               for ( unsigned k = 0; k < cnt; k++ )
               {
                  const unsigned l = rd<uint16_t>( log, p + 6 + 2 * k );
                  if ( q + l > p + plen )
                  {
                     bad( "packet-length", fmt( "bytestream %u of %u bytes exceeds the packet", k, l ) );
                  }
                  streams[k].append( log, q, l );
                  q += l;
               }
               if ( p + plen - q > 3 )
               {
                  bad( "packet-length", fmt( "%" PRIu64 " bytes of padding", p + plen - q ) );
               }
               zero( q, p + plen, "data packet padding" );
            }
            else if ( ty == 0 )
            {
               f.indexPackets++;
               indexAt.insert( p );
               const unsigned cnt = rd<uint16_t>( log, p + 4 );
               const int level = rd<uint8_t>( log, p + 6 );
               zero( p + 7, p + 16, "index packet header" );
               if ( cnt == 0 || cnt > 2048 || level > 5 || 16 + 16 * uint64_t( cnt ) > plen )
               {
                  bad( "index-packet", fmt( "%u entries level %d length %" PRIu64, cnt, level, plen ) );
               }
               zero( p + 16 + 16 * cnt, p + plen, "index packet padding" );
               for ( unsigned k = 0; k < cnt; k++ )
               {
                  entries.push_back( { rd<uint64_t>( log, p + 16 + 16 * k ), rd<uint64_t>( log, p + 24 + 16 * k ), level } );
               }
            }
            else if ( ty == 2 )
            {
               f.emptyPackets++;
               zero( p + 1, p + 2, "empty packet header" );
            }
            else
            {
               bad( "packet-type", fmt( "%u at logical %" PRIu64, ty, p ) );
            }
            p += plen;
         }
         if ( p != at + len )
         {
            bad( "cv-section-length", "packets do not fill the section" );
         }
         if ( !firstData )
         {
            bad( "no-data-packet", "" );
         }
         if ( dataPhys != toPhys( firstData ) )
         {
            bad( "data-offset", fmt( "%" PRIu64 ", first data packet at %" PRIu64, dataPhys, toPhys( firstData ) ) );
         }
         if ( indexPhys % 1024 >= 1020 || !indexAt.count( toLog( indexPhys ) ) )
         {
            bad( "index-offset", fmt( "%" PRIu64 " is not an index packet", indexPhys ) );
         }
         for ( auto &x : entries )
         {
            auto &where = x.level == 0 ? dataAt : indexAt;
            if ( x.phys % 1024 >= 1020 || !where.count( toLog( x.phys ) ) || ( n.records && x.rec >= n.records ) )
            {
               bad( "index-entry", fmt( "record %" PRIu64 " at %" PRIu64, x.rec, x.phys ) );
            }
         }
         if ( entries[0].rec != 0 )
         {
            bad( "index-entry", "first entry is not record 0" );
         }
         for ( size_t k = 0; k < lv.size(); k++ )
         {
            decode( *lv[k].node, lv[k].path, streams[k], n.records, n.cols[k] );
         }
         if ( n.records )
         {
            f.needed.push_back( { at, at + 32, "section header" } );
            for ( size_t q = 0; q < packetAt.size(); q++ )
            {
               // up to eight bytes at the end of a stream may be filling only
               bool need = q == 0;
               for ( size_t k = 0; k < lv.size(); k++ )
               {
                  const size_t upTo = q + 1 < packetAt.size() ? before[q + 1][k] : streams[k].size();
                  need = need || ( upTo > before[q][k] && before[q][k] + 8 < streams[k].size() );
               }
               if ( need )
               {
                  f.needed.push_back( packetAt[q] );
               }
            }
         }
      }
      void decode( const Node &fd, const string &path, const bytes &st, uint64_t n, Column &c )
      {
         auto shortage = [&]( uint64_t r ) { bad( "bytestream-short", fmt( "field %s ends in record %" PRIu64 " of %" PRIu64, path.c_str(), r, n ) ); };
         if ( fd.type == T::Float )
         {
            const size_t w = fd.single ? 4 : 8;
            if ( st.size() / w < n )
            {
               shortage( st.size() / w );
            }
            c.i.resize( n );
            for ( uint64_t r = 0; r < n; r++ )
            {
               c.i[r] = fd.single ? int64_t( rd<uint32_t>( st, r * 4 ) ) : int64_t( rd<uint64_t>( st, r * 8 ) );
            }
            if ( st.size() != n * w )
            {
               bad( "bytestream-excess", path );
            }
            return;
         }
         if ( fd.type == T::String )
         {
            uint64_t p = 0;
            for ( uint64_t r = 0; r < n; r++ )
            {
               if ( p >= st.size() )
               {
                  shortage( r );
               }
               uint64_t len;
               if ( uint8_t( st[p] ) & 1 )
               {
                  if ( st.size() - p < 8 )
                  {
                     shortage( r );
                  }
                  len = rd<uint64_t>( st, p ) >> 1;
                  p += 8;
               }
               else
               {
                  len = uint8_t( st[p] ) >> 1;
                  p++;
               }
               if ( st.size() - p < len )
               {
                  shortage( r );
               }
               c.s.push_back( st.substr( p, len ) );
               p += len;
            }
            if ( p != st.size() )
            {
               bad( "bytestream-excess", path );
            }
            return;
         }
         const uint64_t span = uint64_t( fd.imax ) - uint64_t( fd.imin );
         unsigned bits = 0;
         for ( uint64_t s = span; s; s >>= 1 )
         {
            bits++;
         }
         if ( bits && st.size() * 8 / bits < n )
         {
            shortage( st.size() * 8 / bits );
         }
         c.i.resize( n );
         uint64_t at = 0;
         for ( uint64_t r = 0; r < n; r++ )
         {
            uint64_t v = 0;
            for ( unsigned k = 0; k < bits; )
            {
               const unsigned o = unsigned( at & 7 );
               const unsigned take = std::min( 8 - o, bits - k );
               v |= ( ( uint64_t( uint8_t( st[at >> 3] ) ) >> o ) & ( ( 1u << take ) - 1 ) ) << k;
               k += take;
               at += take;
            }
            if ( v > span )
            {
               bad( "stored-value-outside-bounds", fmt( "field %s record %" PRIu64 ": %" PRIu64 " > %" PRIu64, path.c_str(), r, v, span ) );
            }
            c.i[r] = int64_t( uint64_t( fd.imin ) + v );
         }
         // only alignment filler may follow
         if ( st.size() * 8 - at >= 64 )
         {
            bad( "bytestream-excess", fmt( "%s: %" PRIu64 " bits after the last record", path.c_str(), st.size() * 8 - at ) );
         }
         while ( at < st.size() * 8 )
         {
            if ( ( uint8_t( st[at >> 3] ) >> ( at & 7 ) ) & 1 )
            {
               bad( "bytestream-filler", path );
            }
            at++;
         }
      }
      File parse( const bytes &phys )
      {
         if ( phys.size() < 1024 )
         {
            bad( "file-size", fmt( "%zu", phys.size() ) );
         }
         physSize = phys.size();
         log = stripPages( phys, true );
         f.pages = phys.size() / 1024;
         if ( log.compare( 0, 8, "ASTM-E57" ) != 0 )
         {
            bad( "signature", mon::hex( log.substr( 0, 8 ) ) );
         }
         if ( rd<uint32_t>( log, 8 ) != 1 || rd<uint32_t>( log, 12 ) != 0 )
         {
            bad( "version", fmt( "%u.%u", rd<uint32_t>( log, 8 ), rd<uint32_t>( log, 12 ) ) );
         }
         if ( rd<uint64_t>( log, 16 ) != phys.size() )
         {
            bad( "header-length", fmt( "%" PRIu64 " in the header, %zu in the file", rd<uint64_t>( log, 16 ), phys.size() ) );
         }
         if ( rd<uint64_t>( log, 40 ) != 1024 )
         {
            bad( "page-size", fmt( "%" PRIu64, rd<uint64_t>( log, 40 ) ) );
         }
         const uint64_t xa = logicalOffset( rd<uint64_t>( log, 24 ), "XML" );
         const uint64_t xl = rd<uint64_t>( log, 32 );
         reserve( 0, 48, "header" );
         if ( xl > log.size() )
         {
            bad( "section-outside-file", "XML" );
         }
         reserve( xa, xa + xl, "XML" );
         f.xml = log.substr( xa, xl );
         f.needed.push_back( { 0, 48, "header" } );
         f.needed.push_back( { xa, xa + f.xml.find_last_not_of( " \n\r\t" ) + 1, "XML" } );
         XmlParser xp( f.xml );
         const Elem top = xp.document();
         if ( top.name != "e57Root" )
         {
            bad( "root-name", top.name );
         }
         for ( auto &a : top.attrs )
         {
            if ( a.first == "xmlns" )
            {
               if ( a.second != "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" )
               {
                  bad( "default-namespace", a.second );
               }
               f.ns.emplace_back( "", a.second );
            }
            else if ( a.first.compare( 0, 6, "xmlns:" ) == 0 )
            {
               if ( a.second.empty() )
               {
                  bad( "namespace", a.first );
               }
               f.ns.emplace_back( a.first.substr( 6 ), a.second );
            }
         }
         if ( !top.attr( "xmlns" ) )
         {
            bad( "default-namespace", "none" );
         }
         f.root = node( top, false );
         f.root.name = "";
         if ( f.root.type != T::Structure )
         {
            bad( "root-type", "" );
         }
         return f;
      }
   };
   inline File parseFile( const bytes &phys )
   {
      Parser p;
      return p.parse( phys );
   }

   // -------------------------------------------------------------- synthesis
   // Produces conformant files with layouts the library itself would not choose.
   struct Synth
   {
      Rng &r;
      bool plain = false; // one canonical style, deterministic
      vector<std::pair<string, string>> ns;
      size_t maxPacket = 65536;
      unsigned indexLevels = 0;
      uint64_t dataPackets = 0, indexPackets = 0, emptyPackets = 0;

      // where things ended up (logical), for mutators
      struct Place
      {
         string what;
         uint64_t start, len;
      };
      vector<Place> places;

      explicit Synth( Rng &rng ) : r( rng )
      {
      }
      bool coin( unsigned a, unsigned b )
      {
         return !plain && r.chance( a, b );
      }
      string esc( const string &t, bool attr )
      {
         string o;
         for ( size_t k = 0; k < t.size(); k++ )
         {
            const char c = t[k];
            if ( c == '<' )
               o += coin( 1, 3 ) ? "&#60;" : "&lt;";
            else if ( c == '>' )
               o += coin( 1, 3 ) ? "&#x3e;" : "&gt;";
            else if ( c == '&' )
               o += coin( 1, 3 ) ? "&#38;" : "&amp;";
            else if ( c == '"' && attr )
               o += "&quot;";
            else if ( c == '\'' && attr )
               o += "&apos;";
            else if ( c == '\r' || ( attr && ( c == '\n' || c == '\t' ) ) )
               o += coin( 1, 2 ) ? fmt( "&#x%X;", unsigned( c ) ) : fmt( "&#%d;", int( c ) );
            else if ( uint8_t( c ) < 0x80 && uint8_t( c ) >= 0x21 && coin( 1, 40 ) )
               o += fmt( "&#%d;", int( c ) );
            else
               o += c;
         }
         return o;
      }
      string cdata( const string &t )
      {
         // carriage returns cannot stand in CDATA
         string o;
         size_t p = 0;
         while ( p < t.size() )
         {
            if ( t[p] == '\r' )
            {
               o += "&#13;";
               p++;
               continue;
            }
            size_t e = t.find( '\r', p );
            if ( e == string::npos )
            {
               e = t.size();
            }
            string part = t.substr( p, e - p );
            size_t q;
            o += "<![CDATA[";
            while ( ( q = part.find( "]]>" ) ) != string::npos )
            {
               o += part.substr( 0, q + 2 ) + "]]><![CDATA[";
               part = part.substr( q + 2 );
            }
            o += part + "]]>";
            p = e;
         }
         return o;
      }
      string text( const string &t )
      {
         if ( t.empty() )
         {
            return coin( 1, 4 ) ? "<![CDATA[]]>" : "";
         }
         switch ( plain ? 0 : r.below( 4 ) )
         {
            case 0:
               return cdata( t );
            case 1:
               return esc( t, false );
            case 2:
            {
               // a mixture, split at character boundaries
               string o;
               size_t p = 0;
               while ( p < t.size() )
               {
                  size_t e = std::min( t.size(), p + 1 + r.below( 30 ) );
                  while ( e < t.size() && ( uint8_t( t[e] ) & 0xC0 ) == 0x80 )
                  {
                     e++;
                  }
                  const string part = t.substr( p, e - p );
                  o += r.chance( 1, 2 ) ? cdata( part ) : esc( part, false );
                  if ( r.chance( 1, 8 ) )
                  {
                     o += "<!-- c -->";
                  }
                  p = e;
               }
               return o;
            }
            default:
               return esc( t, false );
         }
      }
      string num( int64_t v )
      {
         string s = std::to_string( v );
         if ( coin( 1, 10 ) && v >= 0 )
         {
            s = "+" + s;
         }
         if ( coin( 1, 10 ) )
         {
            const size_t sign = s[0] == '-' || s[0] == '+' ? 1 : 0;
            s.insert( sign, string( 1 + r.below( 3 ), '0' ) );
         }
         return s;
      }
      string real( double v, bool single )
      {
         string s;
         switch ( plain ? 0 : r.below( 5 ) )
         {
            case 0:
               s = fmt( single ? "%.8e" : "%.16e", v );
               break;
            case 1:
               s = fmt( single ? "%.9g" : "%.17g", v );
               break;
            case 2:
               s = fmt( single ? "%.8E" : "%.17E", v );
               break;
            case 3:
               s = std::fabs( v ) < 1e15 && std::fabs( v ) > 1e-4 ? fmt( "%.25f", v ) : fmt( "%.17g", v );
               break;
            default:
               s = fmt( "%.17g", v );
               if ( s.compare( 0, 2, "0." ) == 0 )
               {
                  s = s.substr( 1 );
               }
               if ( v > 0 && r.chance( 1, 3 ) )
               {
                  s = "+" + s;
               }
         }
         return s;
      }
      string gap()
      {
         if ( plain )
         {
            return "\n";
         }
         switch ( r.below( 8 ) )
         {
            case 0:
               return "\n  ";
            case 1:
               return "<!-- any comment <x type=\"Integer\"/> -->";
            case 2:
               return "\r\n\t";
            case 3:
               return "<?pi data?>";
            case 4:
               return " ";
            default:
               return "";
         }
      }
      string attrs( vector<std::pair<string, string>> a )
      {
         if ( !plain )
         {
            for ( size_t k = a.size(); k > 1; k-- )
            {
               std::swap( a[k - 1], a[r.below( k )] );
            }
         }
         string o;
         for ( auto &x : a )
         {
            const char q = coin( 1, 4 ) ? '\'' : '"';
            o += ( coin( 1, 8 ) ? "\n   " : " " ) + x.first + ( coin( 1, 10 ) ? " = " : "=" ) + q + ( x.second[0] == 0x40 ? x.second : esc( x.second, true ) ) + q;
         }
         return o;
      }
      struct Sec
      {
         const Node *n;
         uint64_t at = 0; // logical
         bytes data;
         string what;
      };
      vector<std::unique_ptr<Sec>> secs;
      map<const Node *, Sec *> byNode;

      string xml( const Node &n, const string &name, bool root = false )
      {
         vector<std::pair<string, string>> a;
         string body;
         a.emplace_back( "type", n.type == T::Scaled ? "ScaledInteger" : model::tname( n.type ) );
         switch ( n.type )
         {
            case T::Structure:
            case T::Vector:
               if ( n.type == T::Vector && ( n.hetero || coin( 1, 2 ) || plain ) )
               {
                  a.emplace_back( "allowHeterogeneousChildren", n.hetero ? "1" : "0" );
               }
               for ( auto &k : n.kids )
               {
                  body += gap() + xml( k, n.type == T::Vector ? ( plain ? "vectorChild" : r.pick( { string( "vectorChild" ), string( "v" ), string( "item.1" ) } ) ) : k.name );
               }
               body += gap();
               if ( root )
               {
                  a.emplace_back( "xmlns", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
                  for ( auto &x : ns )
                  {
                     a.emplace_back( "xmlns:" + x.first, x.second );
                  }
               }
               break;
            case T::Integer:
            case T::Scaled:
               if ( n.imin != INT64_MIN || coin( 1, 3 ) )
               {
                  a.emplace_back( "minimum", num( n.imin ) );
               }
               if ( n.imax != INT64_MAX || coin( 1, 3 ) )
               {
                  a.emplace_back( "maximum", num( n.imax ) );
               }
               if ( n.type == T::Scaled )
               {
                  if ( n.scale != 1 || coin( 1, 2 ) )
                  {
                     a.emplace_back( "scale", real( n.scale, false ) );
                  }
                  if ( n.offset != 0 || coin( 1, 2 ) )
                  {
                     a.emplace_back( "offset", real( n.offset, false ) );
                  }
               }
               if ( n.iv != 0 || coin( 1, 2 ) )
               {
                  body = num( n.iv );
                  if ( coin( 1, 8 ) )
                  {
                     body = "<![CDATA[" + body + "]]>";
                  }
                  if ( coin( 1, 8 ) )
                  {
                     body = " \n" + body + "\n ";
                  }
               }
               break;
            case T::Float:
            {
               if ( n.single || coin( 1, 2 ) )
               {
                  a.emplace_back( "precision", n.single ? "single" : "double" );
               }
               const double lo = n.single ? -FLT_MAX : -DBL_MAX;
               if ( n.fmin != lo || coin( 1, 4 ) )
               {
                  a.emplace_back( "minimum", real( n.fmin, false ) );
               }
               if ( n.fmax != -lo || coin( 1, 4 ) )
               {
                  a.emplace_back( "maximum", real( n.fmax, false ) );
               }
               if ( n.fv != 0 || coin( 1, 2 ) )
               {
                  // bounds next to the value need all digits of it
                  body = real( n.fv, n.single && n.fmin != n.fv && n.fmax != n.fv && n.fmin == lo && n.fmax == -lo );
                  if ( coin( 1, 8 ) )
                  {
                     body = "\n\t" + body + " ";
                  }
               }
               break;
            }
            case T::String:
               body = text( n.sv );
               break;
            case T::Blob:
               a.emplace_back( "fileOffset", tokenOf( n ) );
               a.emplace_back( "length", std::to_string( n.blob.size() ) );
               if ( coin( 1, 4 ) )
               {
                  body = "\n";
               }
               break;
            case T::CompressedVector:
            {
               a.emplace_back( "fileOffset", tokenOf( n ) );
               a.emplace_back( "recordCount", std::to_string( n.records ) );
               const string pr = xml( *n.proto, "prototype" ), co = xml( *n.codecs, "codecs" );
               body = gap() + ( coin( 1, 3 ) ? co + gap() + pr : pr + gap() + co ) + gap();
               break;
            }
         }
         const string open = "<" + name + attrs( a );
         if ( body.empty() && !coin( 1, 3 ) )
         {
            return open + ( coin( 1, 3 ) ? " />" : "/>" );
         }
         return open + ">" + body + "</" + name + ( coin( 1, 8 ) ? " >" : ">" );
      }
      // stream bytes of one field
      bytes stream( const Node &f, const Column &c )
      {
         bytes o;
         if ( f.type == T::Float )
         {
            for ( int64_t v : c.i )
            {
               f.single ? wr<uint32_t>( o, uint32_t( v ) ) : wr<uint64_t>( o, uint64_t( v ) );
            }
            return o;
         }
         if ( f.type == T::String )
         {
            for ( auto &s : c.s )
            {
               if ( s.size() <= 127 && !coin( 1, 6 ) )
               {
                  o += char( s.size() << 1 );
               }
               else
               {
                  wr<uint64_t>( o, ( uint64_t( s.size() ) << 1 ) | 1 );
               }
               o += s;
            }
            return o;
         }
         const uint64_t span = uint64_t( f.imax ) - uint64_t( f.imin );
         unsigned bits = 0;
         for ( uint64_t s = span; s; s >>= 1 )
         {
            bits++;
         }
         uint64_t acc = 0;
         unsigned have = 0;
         for ( int64_t v : c.i )
         {
            uint64_t u = uint64_t( v ) - uint64_t( f.imin );
            for ( unsigned k = 0; k < bits; )
            {
               const unsigned take = std::min( 8 - have, bits - k );
               acc |= ( ( u >> k ) & ( ( 1u << take ) - 1 ) ) << have;
               have += take;
               k += take;
               if ( have == 8 )
               {
                  o += char( acc );
                  acc = 0;
                  have = 0;
               }
            }
         }
         if ( have )
         {
            o += char( acc );
         }
         return o;
      }
      void cvSection( Sec &sec, uint64_t at )
      {
         const Node &n = *sec.n;
         auto lv = model::leaves( *n.proto );
         vector<bytes> st;
         vector<size_t> pos( lv.size(), 0 );
         for ( size_t k = 0; k < lv.size(); k++ )
         {
            st.push_back( stream( *lv[k].node, n.cols[k] ) );
         }
         bytes &o = sec.data;
         o.assign( 32, 0 );
         o[0] = 1;
         uint64_t firstData = 0, index = 0;
         vector<uint64_t> dataAt;
         auto emptyPacket = [&] {
            const size_t len = 4 * ( 1 + r.below( r.chance( 1, 8 ) ? 16384 : 40 ) );
            const size_t b = o.size();
            o.append( len, 0 );
            o[b] = 2;
            wrAt<uint16_t>( o, b + 2, uint16_t( len - 1 ) );
            for ( size_t k = b + 4; k < o.size(); k++ )
            {
               o[k] = char( r.u64() );
            }
            emptyPackets++;
         };
         vector<size_t> patch; // index entries to fill with a data packet offset
         auto indexPacket = [&]( unsigned entries ) {
            index = o.size();
            const size_t b = o.size();
            o.append( 16 + 16 * entries + ( plain ? 0 : 4 * r.below( 3 ) ), 0 );
            o[b] = 0;
            wrAt<uint16_t>( o, b + 2, uint16_t( o.size() - b - 1 ) );
            wrAt<uint16_t>( o, b + 4, uint16_t( entries ) );
            for ( unsigned k = 0; k < entries; k++ )
            {
               wrAt<uint64_t>( o, b + 16 + 16 * k, k ); // record number
               patch.push_back( b + 24 + 16 * k );
            }
            indexPackets++;
         };
         // an index of the chunks so far, in levels; returns where its top is
         std::function<uint64_t( unsigned, uint64_t, uint64_t )> indexTree = [&]( unsigned level, uint64_t from, uint64_t to ) -> uint64_t {
            vector<std::pair<uint64_t, uint64_t>> e; // number, place
            if ( level == 0 )
            {
               for ( uint64_t k = from; k < to && e.size() < 2048; k++ )
               {
                  e.push_back( { k, dataAt[k] } );
               }
            }
            else
            {
               const uint64_t least = uint64_t( 1 ) << ( level - 1 );
               const unsigned n = 2 + unsigned( r.below( ( to - from ) / least - 1 ) % 3 );
               for ( unsigned k = 0; k < n; k++ )
               {
                  const uint64_t a = from + ( to - from ) * k / n, b = from + ( to - from ) * ( k + 1 ) / n;
                  e.push_back( { a, indexTree( b - a < least ? 0 : level - 1, a, b ) } );
               }
            }
            const size_t b = o.size();
            o.append( 16 + 16 * e.size() + 4 * r.below( 3 ), 0 );
            wrAt<uint16_t>( o, b + 2, uint16_t( o.size() - b - 1 ) );
            wrAt<uint16_t>( o, b + 4, uint16_t( e.size() ) );
            o[b + 6] = char( level );
            for ( size_t k = 0; k < e.size(); k++ )
            {
               wrAt<uint64_t>( o, b + 16 + 16 * k, e[k].first );
               wrAt<uint64_t>( o, b + 24 + 16 * k, toPhys( at + e[k].second ) );
            }
            indexPackets++;
            indexLevels = std::max( indexLevels, level + 1 );
            return index = b;
         };
         unsigned trees = 0;
         if ( coin( 1, 6 ) )
         {
            emptyPacket();
         }
         const bool indexFirst = coin( 1, 6 );
         if ( indexFirst )
         {
            indexPacket( 1 );
         }
         const int style = plain ? 0 : int( r.below( 6 ) );
         const size_t headRoom = 6 + 2 * lv.size();
         for ( ;; )
         {
            size_t left = 0;
            for ( size_t k = 0; k < lv.size(); k++ )
            {
               left += st[k].size() - pos[k];
            }
            if ( left == 0 && !dataAt.empty() )
            {
               break;
            }
            size_t room = maxPacket - headRoom;
            if ( style == 1 )
            {
               room = std::min<size_t>( room, 1 + r.below( 40 ) );
            }
            else if ( style >= 2 )
            {
               room = std::min<size_t>( room, 64 + r.below( r.chance( 1, 3 ) ? maxPacket : 2000 ) );
            }
            vector<size_t> take( lv.size(), 0 );
            size_t used = 0;
            const size_t rot = plain || lv.empty() ? 0 : r.below( lv.size() );
            for ( size_t j = 0; j < lv.size(); j++ )
            {
               const size_t k = ( j + rot ) % lv.size();
               size_t c = std::min( st[k].size() - pos[k], room - used );
               if ( style == 3 || style == 1 )
               {
                  c = r.below( c + 1 );
               }
               if ( style == 4 && j > 0 )
               {
                  c = 0; // one stream at a time
               }
               if ( style == 5 )
               {
                  // streams strictly one after the other: largest distance between them
                  bool earlier = false;
                  for ( size_t q = 0; q < k; q++ )
                  {
                     earlier = earlier || pos[q] + take[q] < st[q].size();
                  }
                  c = earlier ? 0 : c;
               }
               take[k] = c;
               used += c;
            }
            const size_t b = o.size();
            dataAt.push_back( b );
            if ( !firstData )
            {
               firstData = b;
            }
            const bool bare = n.records == 0 && coin( 1, 2 );
            size_t len = bare ? 8 : ( headRoom + used + 3 ) / 4 * 4;
            o.append( len, 0 );
            o[b] = 1;
            o[b + 1] = coin( 1, 10 ) ? 1 : 0; // compressor restart flag
            wrAt<uint16_t>( o, b + 2, uint16_t( len - 1 ) );
            wrAt<uint16_t>( o, b + 4, uint16_t( bare ? 0 : lv.size() ) );
            size_t q = b + headRoom;
            for ( size_t k = 0; k < lv.size() && !bare; k++ )
            {
               wrAt<uint16_t>( o, b + 6 + 2 * k, uint16_t( take[k] ) );
               memcpy( &o[q], st[k].data() + pos[k], take[k] );
               q += take[k];
               pos[k] += take[k];
            }
            dataPackets++;
            if ( coin( 1, 8 ) )
            {
               emptyPacket();
            }
            if ( coin( 1, 12 ) )
            {
               indexPacket( 1 );
            }
            const uint64_t chunks = std::min<uint64_t>( dataAt.size(), n.records );
            if ( chunks > 0 && trees < 3 && coin( 1, dataAt.size() < 40 ? 25 : 300 ) )
            {
               trees++;
               unsigned levels = 0;
               while ( levels < 5 && ( uint64_t( 2 ) << levels ) <= chunks )
               {
                  levels++;
               }
               indexTree( r.chance( 1, 2 ) ? levels : unsigned( r.below( levels + 1 ) ), 0, chunks );
            }
         }
         if ( !index || !coin( 1, 3 ) )
         {
            indexPacket( plain ? 1 : unsigned( std::min<uint64_t>( { 1 + r.below( 5 ), std::max<uint64_t>( n.records, 1 ), dataAt.size() } ) ) );
         }
         if ( coin( 1, 6 ) )
         {
            emptyPacket();
         }
         // entry k of an index packet refers to data packet k
         {
            size_t within = 0, last = SIZE_MAX;
            for ( size_t e : patch )
            {
               within = last != SIZE_MAX && e == last + 16 ? within + 1 : 0;
               last = e;
               wrAt<uint64_t>( o, e, toPhys( at + dataAt[std::min( within, dataAt.size() - 1 )] ) );
            }
         }
         wrAt<uint64_t>( o, 8, o.size() );
         wrAt<uint64_t>( o, 16, toPhys( at + firstData ) );
         wrAt<uint64_t>( o, 24, toPhys( at + index ) );
      }
      void collect( const Node &n )
      {
         if ( n.type == T::Blob || n.type == T::CompressedVector )
         {
            secs.emplace_back( new Sec );
            secs.back()->n = &n;
            secs.back()->what = model::tname( n.type );
            byNode[&n] = secs.back().get();
         }
         for ( auto &k : n.kids )
         {
            collect( k );
         }
      }
      // logical bytes of the file
      bytes logical( const Node &root )
      {
         secs.clear();
         byNode.clear();
         places.clear();
         collect( root );
         bytes o( 48, 0 );
         memcpy( &o[0], "ASTM-E57", 8 );
         wrAt<uint32_t>( o, 8, 1 );
         wrAt<uint64_t>( o, 40, 1024 );
         vector<Sec *> order;
         for ( auto &s : secs )
         {
            order.push_back( s.get() );
         }
         if ( !plain )
         {
            for ( size_t k = order.size(); k > 1; k-- )
            {
               std::swap( order[k - 1], order[r.below( k )] );
            }
         }
         // offsets are filled in as fixed width numbers, so that the XML can stand anywhere
         string x;
         if ( plain || r.chance( 2, 3 ) )
         {
            x = plain || r.chance( 1, 2 ) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
                                          : r.pick( { string( "<?xml version='1.0'?>" ), string( "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\r\n" ) } );
         }
         x += gap() == "" ? "" : "<!-- file -->";
         x += xml( root, "e57Root", true );
         if ( coin( 1, 2 ) )
         {
            x += "\n   ";
         }
         const size_t xmlTurn = plain || r.chance( 1, 2 ) ? order.size() : r.below( order.size() + 1 );
         uint64_t xa = 0;
         for ( size_t turn = 0; turn <= order.size(); turn++ )
         {
            if ( turn == xmlTurn )
            {
               if ( coin( 1, 6 ) )
               {
                  o.append( ( 1020 + 1019 - r.below( 40 ) - o.size() % 1020 ) % 1020, 0 );
               }
               xa = o.size();
               o += x;
               places.push_back( { "XML", xa, x.size() } );
               o.append( ( 4 - o.size() % 4 ) % 4, ' ' );
            }
            if ( turn == order.size() )
            {
               break;
            }
            auto *s = order[turn];
            if ( coin( 1, 5 ) )
            {
               // unused room between sections
               const size_t g = 4 * r.below( r.chance( 1, 4 ) ? 1500 : 20 );
               for ( size_t k = 0; k < g; k++ )
               {
                  o += char( r.u64() );
               }
            }
            if ( coin( 1, 8 ) )
            {
               o.append( ( 1020 - o.size() % 1020 ) % 1020, 0 ); // start of a page
            }
            if ( coin( 1, 8 ) )
            {
               // straddle a page end
               o.append( ( 1020 + 1020 - 4 - o.size() % 1020 ) % 1020, 0 );
            }
            s->at = o.size();
            if ( s->n->type == T::Blob )
            {
               s->data.assign( 16, 0 );
               s->data += s->n->blob;
               s->data.append( ( 4 - s->data.size() % 4 ) % 4, 0 );
               if ( coin( 1, 4 ) )
               {
                  s->data.append( 4 * r.below( 5 ), 0 );
               }
               wrAt<uint64_t>( s->data, 8, s->data.size() );
            }
            else
            {
               cvSection( *s, s->at );
            }
            o += s->data;
            places.push_back( { s->what, s->at, s->data.size() } );
         }
         for ( size_t k = 0; k < secs.size(); k++ )
         {
            const string mark = token( k );
            const size_t at = o.find( mark, xa );
            o.replace( at, mark.size(), fmt( "%0*" PRIu64, int( mark.size() ), toPhys( secs[k]->at ) ) );
         }
         wrAt<uint64_t>( o, 24, toPhys( xa ) );
         wrAt<uint64_t>( o, 32, x.size() );
         if ( coin( 1, 5 ) )
         {
            o.append( r.below( 3000 ), 0x20 );
         }
         wrAt<uint64_t>( o, 16, ( o.size() + 1019 ) / 1020 * 1024 );
         return o;
      }
      static string token( size_t k )
      {
         return fmt( "@%07zu@", k );
      }
      string tokenOf( const Node &n )
      {
         for ( size_t k = 0; k < secs.size(); k++ )
         {
            if ( secs[k]->n == &n )
            {
               return token( k );
            }
         }
         return "?";
      }
      bytes file( const Node &root )
      {
         return addPages( logical( root ) );
      }
   };
}
