// Executable model of what a file contains: element trees, record layouts and values.
// Used to drive the library, and to compare what the library (or the independent
// parser in ref.h) reports with what was meant.
#pragma once
#include <cfloat>
#include <cmath>
#include <functional>
#include <memory>
#include <set>

#include "mon.h"

namespace model
{
   using mon::bytes;
   using mon::Rng;
   using std::string;
   using std::vector;

   enum class T
   {
      Structure,
      Vector,
      CompressedVector,
      Integer,
      Scaled,
      Float,
      String,
      Blob
   };
   inline const char *tname( T t )
   {
      static const char *n[] = { "Structure", "Vector", "CompressedVector", "Integer", "ScaledInteger", "Float", "String", "Blob" };
      return n[int( t )];
   }

   // one field of a record sequence: integers and raw scaled integers as themselves, floats as bit
   // patterns (32 bit ones in the low half), strings as strings
   struct Column
   {
      vector<int64_t> i;
      vector<string> s;
   };

   inline int64_t bitsOf( double d )
   {
      int64_t r;
      memcpy( &r, &d, 8 );
      return r;
   }
   inline int64_t bitsOf( float f )
   {
      uint32_t r;
      memcpy( &r, &f, 4 );
      return int64_t( r );
   }
   inline double asDouble( int64_t b )
   {
      double d;
      memcpy( &d, &b, 8 );
      return d;
   }
   inline float asFloat( int64_t b )
   {
      uint32_t u = uint32_t( b );
      float f;
      memcpy( &f, &u, 4 );
      return f;
   }

   struct Node
   {
      T type = T::Structure;
      string name; // element name within a structure parent
      vector<Node> kids;
      bool hetero = false;
      int64_t iv = 0, imin = INT64_MIN, imax = INT64_MAX;
      double scale = 1, offset = 0;
      double fv = 0, fmin = -DBL_MAX, fmax = DBL_MAX;
      bool single = false;
      string sv;
      bytes blob;
      std::shared_ptr<Node> proto, codecs;
      vector<Column> cols;
      uint64_t records = 0;
      bool unwritten = false; // CompressedVector without any data section

      Node() = default;
      Node( T t, string n = "" ) : type( t ), name( std::move( n ) )
      {
      }
      bool leaf() const
      {
         return type == T::Integer || type == T::Scaled || type == T::Float || type == T::String;
      }
      Node *kid( const string &n )
      {
         for ( auto &k : kids )
         {
            if ( k.name == n )
            {
               return &k;
            }
         }
         return nullptr;
      }
   };

   struct Leaf
   {
      string path;
      const Node *node;
   };
   inline void collectLeaves( const Node &n, const string &path, vector<Leaf> &out )
   {
      if ( n.leaf() )
      {
         out.push_back( { path, &n } );
         return;
      }
      for ( size_t i = 0; i < n.kids.size(); i++ )
      {
         const string nm = n.type == T::Vector ? std::to_string( i ) : n.kids[i].name;
         collectLeaves( n.kids[i], path.empty() ? nm : path + "/" + nm, out );
      }
   }
   inline vector<Leaf> leaves( const Node &proto )
   {
      vector<Leaf> v;
      collectLeaves( proto, "", v );
      return v;
   }

   // ------------------------------------------------------------ comparison
   inline bool sameNumber( double a, double b, bool single )
   {
      if ( single )
      {
         return float( a ) == float( b ) || ( std::isnan( a ) && std::isnan( b ) );
      }
      return a == b || ( std::isnan( a ) && std::isnan( b ) );
   }
   inline double clampF( double v, bool single )
   {
      return single ? std::max( double( -FLT_MAX ), std::min( double( FLT_MAX ), v ) ) : v;
   }
   // first difference between two descriptions, "" if none
   inline string diff( const Node &a, const Node &b, const string &path = "", bool names = true )
   {
      const string at = path.empty() ? "/" : path;
      auto D = [&]( const char *what, const string &x, const string &y ) { return at + ": " + what + " " + x + " vs " + y; };
      if ( a.type != b.type )
      {
         return D( "type", tname( a.type ), tname( b.type ) );
      }
      if ( names && a.name != b.name )
      {
         return D( "name", mon::quote( a.name ), mon::quote( b.name ) );
      }
      switch ( a.type )
      {
         case T::Vector:
            if ( a.hetero != b.hetero )
            {
               return D( "allowHeteroChildren", a.hetero ? "1" : "0", b.hetero ? "1" : "0" );
            }
            // fall through
         case T::Structure:
            if ( a.kids.size() != b.kids.size() )
            {
               return D( "child count", std::to_string( a.kids.size() ), std::to_string( b.kids.size() ) );
            }
            for ( size_t i = 0; i < a.kids.size(); i++ )
            {
               string d = diff( a.kids[i], b.kids[i], path + "/" + ( a.type == T::Vector ? std::to_string( i ) : a.kids[i].name ),
                                a.type == T::Structure );
               if ( !d.empty() )
               {
                  return d;
               }
            }
            return "";
         case T::Scaled:
            if ( a.scale != b.scale )
            {
               return D( "scale", mon::fmt( "%a", a.scale ), mon::fmt( "%a", b.scale ) );
            }
            if ( a.offset != b.offset )
            {
               return D( "offset", mon::fmt( "%a", a.offset ), mon::fmt( "%a", b.offset ) );
            }
            // fall through
         case T::Integer:
            if ( a.iv != b.iv )
            {
               return D( "value", std::to_string( a.iv ), std::to_string( b.iv ) );
            }
            if ( a.imin != b.imin )
            {
               return D( "minimum", std::to_string( a.imin ), std::to_string( b.imin ) );
            }
            if ( a.imax != b.imax )
            {
               return D( "maximum", std::to_string( a.imax ), std::to_string( b.imax ) );
            }
            return "";
         case T::Float:
            if ( a.single != b.single )
            {
               return D( "precision", a.single ? "single" : "double", b.single ? "single" : "double" );
            }
            if ( !sameNumber( a.fv, b.fv, a.single ) )
            {
               return D( "value", mon::fmt( "%a (%.17g)", a.fv, a.fv ), mon::fmt( "%a (%.17g)", b.fv, b.fv ) );
            }
            if ( !sameNumber( clampF( a.fmin, a.single ), clampF( b.fmin, a.single ), a.single ) )
            {
               return D( "minimum", mon::fmt( "%a", a.fmin ), mon::fmt( "%a", b.fmin ) );
            }
            if ( !sameNumber( clampF( a.fmax, a.single ), clampF( b.fmax, a.single ), a.single ) )
            {
               return D( "maximum", mon::fmt( "%a", a.fmax ), mon::fmt( "%a", b.fmax ) );
            }
            return "";
         case T::String:
            if ( a.sv != b.sv )
            {
               size_t k = 0;
               while ( k < a.sv.size() && k < b.sv.size() && a.sv[k] == b.sv[k] )
               {
                  k++;
               }
               return D( "string", mon::fmt( "len %zu differs at %zu: %s", a.sv.size(), k, mon::quote( a.sv.substr( k, 20 ) ).c_str() ),
                         mon::fmt( "len %zu: %s", b.sv.size(), mon::quote( b.sv.substr( std::min( k, b.sv.size() ), 20 ) ).c_str() ) );
            }
            return "";
         case T::Blob:
            if ( a.blob.size() != b.blob.size() )
            {
               return D( "blob size", std::to_string( a.blob.size() ), std::to_string( b.blob.size() ) );
            }
            if ( a.blob != b.blob )
            {
               size_t k = 0;
               while ( a.blob[k] == b.blob[k] )
               {
                  k++;
               }
               return D( "blob byte", mon::fmt( "[%zu]=%02x", k, uint8_t( a.blob[k] ) ), mon::fmt( "%02x", uint8_t( b.blob[k] ) ) );
            }
            return "";
         case T::CompressedVector:
         {
            string d = diff( *a.proto, *b.proto, path + "/prototype", false );
            if ( d.empty() )
            {
               d = diff( *a.codecs, *b.codecs, path + "/codecs", false );
            }
            if ( !d.empty() )
            {
               return d;
            }
            if ( a.records != b.records )
            {
               return D( "record count", std::to_string( a.records ), std::to_string( b.records ) );
            }
            if ( a.cols.size() != b.cols.size() )
            {
               return D( "column count", std::to_string( a.cols.size() ), std::to_string( b.cols.size() ) );
            }
            auto lv = leaves( *a.proto );
            for ( size_t c = 0; c < a.cols.size(); c++ )
            {
               for ( size_t r = 0; r < a.records; r++ )
               {
                  if ( lv[c].node->type == T::String )
                  {
                     if ( a.cols[c].s[r] != b.cols[c].s[r] )
                     {
                        return at + mon::fmt( ": record %zu field %s string of %zu vs %zu bytes: %s vs %s", r, lv[c].path.c_str(),
                                              a.cols[c].s[r].size(), b.cols[c].s[r].size(),
                                              mon::quote( a.cols[c].s[r].substr( 0, 30 ) ).c_str(),
                                              mon::quote( b.cols[c].s[r].substr( 0, 30 ) ).c_str() );
                     }
                  }
                  else if ( a.cols[c].i[r] != b.cols[c].i[r] )
                  {
                     return at + mon::fmt( ": record %zu field %s (%s) %" PRId64 " vs %" PRId64, r, lv[c].path.c_str(),
                                           tname( lv[c].node->type ), a.cols[c].i[r], b.cols[c].i[r] );
                  }
               }
            }
            return "";
         }
      }
      return "";
   }

   // ------------------------------------------------------------- generation
   struct Gen
   {
      Rng &r;
      explicit Gen( Rng &rng ) : r( rng )
      {
      }

      unsigned bitsNeeded( int64_t lo, int64_t hi )
      {
         uint64_t span = uint64_t( hi ) - uint64_t( lo );
         unsigned b = 0;
         while ( span )
         {
            b++;
            span >>= 1;
         }
         return b;
      }
      // integer range of exactly `bits` bits (0..64), placed anywhere, often at extremes
      void range( unsigned bits, int64_t &lo, int64_t &hi )
      {
         uint64_t span; // hi - lo
         if ( bits == 0 )
         {
            span = 0;
         }
         else
         {
            const uint64_t top = bits == 64 ? UINT64_MAX : ( ( 1ULL << bits ) - 1 );
            const uint64_t low = 1ULL << ( bits - 1 );
            switch ( r.below( 4 ) )
            {
               case 0:
                  span = top;
                  break;
               case 1:
                  span = low;
                  break;
               default:
                  span = low + r.below( top - low + 1 ? top - low + 1 : UINT64_MAX );
            }
            if ( span < low )
            {
               span = low;
            }
         }
         // position: lo in [INT64_MIN, INT64_MAX - span]
         const uint64_t room = UINT64_MAX - span;
         uint64_t p;
         switch ( r.below( 6 ) )
         {
            case 0:
               p = 0;
               break; // lo = INT64_MIN
            case 1:
               p = room;
               break; // hi = INT64_MAX
            case 2:
               p = std::min( room, uint64_t( 1 ) << 63 );
               break; // lo = 0
            case 3:
            {
               // around zero
               uint64_t z = ( uint64_t( 1 ) << 63 ) - std::min( span / 2 + 1, uint64_t( 1 ) << 63 );
               p = std::min( room, z );
               break;
            }
            case 4:
            {
               uint64_t z = ( uint64_t( 1 ) << 63 ) + r.below( 2000 ) - 1000;
               p = std::min( room, z );
               break;
            }
            default:
               p = room == UINT64_MAX ? r.u64() : r.below( room + 1 );
         }
         lo = int64_t( p ^ ( 1ULL << 63 ) );
         hi = int64_t( uint64_t( lo ) + span );
      }
      int64_t intIn( int64_t lo, int64_t hi )
      {
         switch ( r.below( 8 ) )
         {
            case 0:
               return lo;
            case 1:
               return hi;
            case 2:
               return int64_t( uint64_t( lo ) + std::min<uint64_t>( 1, uint64_t( hi ) - uint64_t( lo ) ) );
            case 3:
               return lo <= 0 && hi >= 0 ? 0 : hi;
            default:
               return r.range( lo, hi );
         }
      }
      double finiteDouble()
      {
         switch ( r.below( 12 ) )
         {
            case 0:
               return 0.0;
            case 1:
               return DBL_MAX;
            case 2:
               return -DBL_MAX;
            case 3:
               return DBL_MIN;
            case 4:
               return 4.9406564584124654e-324;
            case 5:
               return r.pick( { 1.0, -1.0, 0.1, 1e-3, 123456.789, -0.5, 1e17, 1e16 + 2, 3.0 } );
            case 6:
               return double( r.range( -1000000, 1000000 ) ) / 1000.0;
            case 7:
               return double( r.range( INT64_MIN, INT64_MAX ) );
            default:
               for ( ;; )
               {
                  double d = asDouble( int64_t( r.u64() ) );
                  if ( std::isfinite( d ) )
                  {
                     return d;
                  }
               }
         }
      }
      double pickD( std::initializer_list<double> l )
      {
         return l.begin()[r.below( l.size() )];
      }
      float finiteFloat()
      {
         switch ( r.below( 10 ) )
         {
            case 0:
               return 0.0f;
            case 1:
               return FLT_MAX;
            case 2:
               return -FLT_MAX;
            case 3:
               return FLT_MIN;
            case 4:
               return 1.40129846e-45f;
            case 5:
               return float( r.range( -1000000, 1000000 ) ) / 1000.0f;
            default:
               for ( ;; )
               {
                  float f = asFloat( int64_t( r.u64() & 0xffffffffu ) );
                  if ( std::isfinite( f ) )
                  {
                     return f;
                  }
               }
         }
      }
      // legal XML text. Carriage returns included.
      string text( size_t maxLen )
      {
         string s;
         const size_t n = r.chance( 1, 6 ) ? 0 : r.below( maxLen + 1 );
         const int mode = int( r.below( 5 ) );
         while ( s.size() < n )
         {
            switch ( mode == 4 ? r.below( 12 ) : mode == 0 ? 0 : r.below( 4 ) )
            {
               case 0:
                  s += char( 0x20 + r.below( 0x5f ) );
                  break;
               case 1:
                  s += r.pick( specials() );
                  break;
               case 2:
                  utf8( s, uint32_t( r.range( 0xA0, 0x7FF ) ) );
                  break;
               case 3:
                  s += char( 'a' + r.below( 26 ) );
                  break;
               case 4:
                  utf8( s, uint32_t( r.range( 0x800, 0xD7FF ) ) );
                  break;
               case 5:
                  utf8( s, uint32_t( r.range( 0x10000, 0x10FFFD ) ) & ~2u );
                  break;
               case 6:
                  s += "]]>";
                  break;
               case 7:
                  s += ']';
                  break;
               case 8:
                  s += '>';
                  break;
               case 9:
                  s += r.pick( vector<string>{ "\n", "\t", " ", "\r", "\r\n" } );
                  break;
               case 10:
                  utf8( s, uint32_t( r.range( 0xE000, 0xFFFD ) ) );
                  break;
               default:
                  s += char( '0' + r.below( 10 ) );
            }
         }
         return s;
      }
      static const vector<string> &specials()
      {
         static const vector<string> v{ "<", ">", "&", "\"", "'", "]]>", "]]", "]", "<![CDATA[", "&amp;", "<!--", "-->", "<?x?>",
                                        "\n", "\t", " ", "  ", "\r", "\r\n", "%", "\\", "/", "{", "}", "]]]]>>", "&#13;", "\xC2\x85", "\xE2\x80\xA8" };
         return v;
      }
      static void utf8( string &s, uint32_t c )
      {
         if ( c < 0x80 )
         {
            s += char( c );
         }
         else if ( c < 0x800 )
         {
            s += char( 0xC0 | ( c >> 6 ) );
            s += char( 0x80 | ( c & 63 ) );
         }
         else if ( c < 0x10000 )
         {
            s += char( 0xE0 | ( c >> 12 ) );
            s += char( 0x80 | ( ( c >> 6 ) & 63 ) );
            s += char( 0x80 | ( c & 63 ) );
         }
         else
         {
            s += char( 0xF0 | ( c >> 18 ) );
            s += char( 0x80 | ( ( c >> 12 ) & 63 ) );
            s += char( 0x80 | ( ( c >> 6 ) & 63 ) );
            s += char( 0x80 | ( c & 63 ) );
         }
      }
      string binary( size_t n )
      {
         string s( n, 0 );
         for ( size_t k = 0; k < n; k++ )
         {
            s[k] = char( r.u64() );
         }
         return s;
      }
      string ident()
      {
         static const char first[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
         static const char rest[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789.-";
         string s( 1, first[r.below( sizeof first - 1 )] );
         const size_t n = r.chance( 1, 20 ) ? r.below( 200 ) : r.below( 9 );
         while ( s.size() < n )
         {
            s += rest[r.below( sizeof rest - 1 )];
         }
         return s;
      }
      static bool reserved( const string &n )
      {
         string l;
         for ( char c : n )
         {
            l += char( tolower( c ) );
         }
         return l.compare( 0, 3, "xml" ) == 0;
      }
      string uniqueName( const Node &parent, const vector<string> &prefixes )
      {
         for ( ;; )
         {
            string n = ident();
            if ( !prefixes.empty() && r.chance( 1, 4 ) )
            {
               n = r.pick( prefixes ) + ":" + n;
            }
            bool dup = reserved( n );
            for ( auto &k : parent.kids )
            {
               dup = dup || k.name == n;
            }
            if ( !dup )
            {
               return n;
            }
         }
      }
      // random leaf with value and bounds
      Node leafNode( const string &name )
      {
         Node n( r.pick( { T::Integer, T::Integer, T::Scaled, T::Scaled, T::Float, T::Float, T::String } ), name );
         fillLeaf( n );
         return n;
      }
      void fillLeaf( Node &n )
      {
         switch ( n.type )
         {
            case T::Integer:
            case T::Scaled:
               if ( r.chance( 1, 4 ) )
               {
                  n.imin = INT64_MIN;
                  n.imax = INT64_MAX;
               }
               else
               {
                  range( unsigned( r.below( 65 ) ), n.imin, n.imax );
               }
               n.iv = intIn( n.imin, n.imax );
               if ( n.type == T::Scaled )
               {
                  n.scale = r.chance( 1, 4 ) ? 1.0 : finiteDouble();
                  if ( n.scale == 0 )
                  {
                     n.scale = 0.001;
                  }
                  n.offset = r.chance( 1, 4 ) ? 0.0 : finiteDouble();
               }
               break;
            case T::Float:
            {
               n.single = r.chance( 1, 2 );
               auto val = [&] { return n.single ? double( finiteFloat() ) : finiteDouble(); };
               n.fv = val();
               n.fmax = n.single ? double( FLT_MAX ) : DBL_MAX;
               n.fmin = -n.fmax;
               if ( r.chance( 1, 2 ) )
               {
                  double a = val();
                  if ( a <= n.fv )
                  {
                     n.fmin = a;
                  }
                  double b = val();
                  if ( b >= n.fv )
                  {
                     n.fmax = b;
                  }
                  if ( r.chance( 1, 6 ) )
                  {
                     n.fmin = n.fv;
                  }
                  if ( r.chance( 1, 6 ) )
                  {
                     n.fmax = n.fv;
                  }
               }
               break;
            }
            case T::String:
               n.sv = text( r.chance( 1, 10 ) ? 3000 : 40 );
               break;
            default:
               break;
         }
      }
      T pickT( std::initializer_list<T> l )
      {
         return l.begin()[r.below( l.size() )];
      }

      // ---------------------------------------------------------- prototypes
      Node fieldNode( const string &name, int kind = -1 )
      {
         // kind: 0 int, 1 scaled, 2 single, 3 double, 4 string
         if ( kind < 0 )
         {
            static const int k[] = { 0, 0, 0, 1, 1, 2, 3, 4 };
            kind = k[r.below( 8 )];
         }
         Node n( kind == 0 ? T::Integer : kind == 1 ? T::Scaled : kind == 4 ? T::String : T::Float, name );
         if ( kind <= 1 )
         {
            const unsigned bits = r.chance( 1, 8 ) ? 64 : r.chance( 1, 8 ) ? 0 : unsigned( r.below( 65 ) );
            range( bits, n.imin, n.imax );
            n.iv = intIn( n.imin, n.imax );
            if ( kind == 1 )
            {
               n.scale = pickD( { 1, 0.001, 0.5, 2, 1e-6, -0.01, 3.7, 1.0 / 3 } );
               n.offset = pickD( { 0, 0, 1, -100, 0.25, 1e5 } );
            }
         }
         else if ( kind == 2 || kind == 3 )
         {
            n.single = kind == 2;
            if ( n.single )
            {
               n.fmin = -FLT_MAX;
               n.fmax = FLT_MAX;
            }
            n.fv = 0;
         }
         return n;
      }
      // prototype with about nFields terminals, possibly nested
      Node prototype( unsigned nFields, bool nested, const vector<string> &prefixes = {}, int onlyKind = -1 )
      {
         Node p( T::Structure, "prototype" );
         unsigned made = 0;
         while ( made < nFields )
         {
            if ( nested && r.chance( 1, 5 ) )
            {
               Node sub( r.chance( 1, 2 ) ? T::Structure : T::Vector, uniqueName( p, prefixes ) );
               sub.hetero = sub.type == T::Vector;
               unsigned k = unsigned( r.below( 4 ) );
               for ( unsigned j = 0; j < k && made < nFields; j++, made++ )
               {
                  Node f = fieldNode( sub.type == T::Vector ? "" : uniqueName( sub, prefixes ), onlyKind );
                  if ( r.chance( 1, 4 ) && sub.type == T::Structure )
                  {
                     Node deeper( T::Structure, f.name );
                     f.name = uniqueName( deeper, prefixes );
                     deeper.kids.push_back( f );
                     sub.kids.push_back( deeper );
                  }
                  else
                  {
                     sub.kids.push_back( f );
                  }
               }
               p.kids.push_back( sub );
            }
            else
            {
               p.kids.push_back( fieldNode( uniqueName( p, prefixes ), onlyKind ) );
               made++;
            }
         }
         return p;
      }
      void fillColumn( const Node &f, Column &c, size_t n, size_t maxStr = 40 )
      {
         const int style = int( r.below( 4 ) );
         for ( size_t k = 0; k < n; k++ )
         {
            switch ( f.type )
            {
               case T::Integer:
               case T::Scaled:
                  if ( style == 0 )
                  {
                     // distinguishable: index within range
                     uint64_t span = uint64_t( f.imax ) - uint64_t( f.imin );
                     c.i.push_back( int64_t( uint64_t( f.imin ) + ( span == UINT64_MAX ? k : k % ( span + 1 ) ) ) );
                  }
                  else
                  {
                     c.i.push_back( intIn( f.imin, f.imax ) );
                  }
                  break;
               case T::Float:
                  if ( f.single )
                  {
                     c.i.push_back( style == 0 ? bitsOf( float( k ) + 0.25f )
                                    : r.chance( 1, 10 )
                                       ? r.pick( { bitsOf( INFINITY ), bitsOf( -INFINITY ), int64_t( 0x7fc00000 ), int64_t( 0x80000000 ) } )
                                       : bitsOf( finiteFloat() ) );
                  }
                  else
                  {
                     c.i.push_back( style == 0        ? bitsOf( double( k ) + 0.125 )
                                    : r.chance( 1, 10 ) ? r.pick( { bitsOf( double( INFINITY ) ), bitsOf( -double( INFINITY ) ),
                                                                    int64_t( 0x7ff8000000000000 ), int64_t( 0x8000000000000000ULL ) } )
                                                        : bitsOf( finiteDouble() ) );
                  }
                  break;
               case T::String:
                  if ( r.chance( 1, 30 ) )
                  {
                     c.s.push_back( binary( size_t( r.range( 120, 140 ) ) ) );
                  }
                  else if ( r.chance( 1, 200 ) )
                  {
                     c.s.push_back( binary( size_t( r.range( 1000, 5000 ) ) ) );
                  }
                  else
                  {
                     c.s.push_back( style == 0 ? "s" + std::to_string( k ) : binary( r.below( maxStr + 1 ) ) );
                  }
                  break;
               default:
                  break;
            }
         }
      }
      Node compressedVector( const string &name, unsigned nFields, bool nested, size_t records, const vector<string> &prefixes = {},
                             int onlyKind = -1 )
      {
         Node cv( T::CompressedVector, name );
         cv.proto = std::make_shared<Node>( prototype( nFields, nested, prefixes, onlyKind ) );
         cv.codecs = std::make_shared<Node>( T::Vector, "codecs" );
         cv.codecs->hetero = true;
         cv.records = records;
         for ( auto &l : leaves( *cv.proto ) )
         {
            cv.cols.emplace_back();
            fillColumn( *l.node, cv.cols.back(), records );
         }
         return cv;
      }

      // strings which with the other fields just about fill a packet
      Node packetEdge( const string &name )
      {
         Node cv( T::CompressedVector, name );
         cv.codecs = std::make_shared<Node>( T::Vector, "codecs" );
         cv.codecs->hetero = true;
         Node p( T::Structure, "prototype" );
         const unsigned strings = 1 + unsigned( r.below( 3 ) ), others = unsigned( r.below( 4 ) );
         for ( unsigned k = 0; k < strings + others; k++ )
         {
            p.kids.push_back( fieldNode( "f" + std::to_string( k ), k < strings ? 4 : int( r.below( 4 ) ) ) );
         }
         cv.proto = std::make_shared<Node>( p );
         cv.records = 1 + r.below( 5 );
         const int64_t room = 65536 - 6 - 2 * int64_t( strings + others );
         for ( unsigned k = 0; k < strings + others; k++ )
         {
            cv.cols.emplace_back();
            fillColumn( cv.proto->kids[k], cv.cols.back(), cv.records );
         }
         for ( uint64_t j = 0; j < cv.records; j++ )
         {
            // shares of one packet for the fields of this record, and maybe for more records
            int64_t left = ( room - 9 * int64_t( strings ) - 8 * int64_t( others ) ) / int64_t( r.chance( 1, 3 ) ? cv.records : 1 );
            for ( unsigned k = 0; k < strings; k++ )
            {
               const int64_t n = k + 1 == strings ? left - 12 + int64_t( r.below( 40 ) ) : r.range( 0, left );
               cv.cols[k].s[j] = binary( size_t( std::max<int64_t>( 0, n ) ) );
               left -= n;
            }
         }
         return cv;
      }

      // ------------------------------------------------------------ any tree
      struct TreeOpts
      {
         vector<string> prefixes;
         unsigned budget = 30; // elements
         unsigned depth = 5;
         bool blobs = true, cvs = true;
         size_t maxBlob = 3000, maxRecords = 60;
      };
      // a second element of the same type: other values, same shape
      void revalue( Node &n )
      {
         switch ( n.type )
         {
            case T::Integer:
            case T::Scaled:
               n.iv = intIn( n.imin, n.imax );
               break;
            case T::Float:
            {
               const double v = n.single ? double( finiteFloat() ) : finiteDouble();
               if ( v >= n.fmin && v <= n.fmax )
               {
                  n.fv = v;
               }
               break;
            }
            case T::String:
               n.sv = text( 40 );
               break;
            case T::Blob:
               n.blob = binary( n.blob.size() );
               break;
            case T::CompressedVector:
            {
               auto lv = leaves( *n.proto );
               for ( size_t k = 0; k < lv.size(); k++ )
               {
                  n.cols[k] = Column();
                  fillColumn( *lv[k].node, n.cols[k], n.records );
               }
               break;
            }
            default:
               for ( auto &k : n.kids )
               {
                  revalue( k );
               }
         }
      }
      Node anyNode( const string &name, const TreeOpts &o, unsigned &budget, unsigned depth )
      {
         if ( budget )
         {
            budget--;
         }
         const uint64_t k = r.below( 20 );
         if ( depth > 0 && budget > 0 && k < 5 )
         {
            Node n( T::Structure, name );
            fillTree( n, o, budget, depth - 1, 1 + unsigned( r.below( 6 ) ) );
            return n;
         }
         if ( depth > 0 && budget > 0 && k < 9 )
         {
            Node n( T::Vector, name );
            n.hetero = r.chance( 1, 2 );
            if ( n.hetero )
            {
               const unsigned c = unsigned( r.below( 6 ) );
               for ( unsigned j = 0; j < c; j++ )
               {
                  n.kids.push_back( anyNode( "", o, budget, depth - 1 ) );
               }
            }
            else
            {
               const unsigned c = r.chance( 1, 8 ) ? 10 + unsigned( r.below( 15 ) ) : unsigned( r.below( 5 ) );
               if ( c )
               {
                  n.kids.push_back( anyNode( "", o, budget, depth - 1 ) );
               }
               for ( unsigned j = 1; j < c; j++ )
               {
                  Node t = n.kids[0];
                  deepCopy( t );
                  revalue( t );
                  n.kids.push_back( t );
               }
            }
            return n;
         }
         if ( k == 9 && o.blobs )
         {
            Node n( T::Blob, name );
            n.blob = binary( r.below( o.maxBlob + 1 ) );
            return n;
         }
         if ( k == 10 && o.cvs )
         {
            Node n = compressedVector( name, 1 + unsigned( r.below( 4 ) ), r.chance( 1, 2 ), r.below( o.maxRecords + 1 ), o.prefixes );
            // prototypes carry values and float bounds too
            std::function<void( Node & )> deco = [&]( Node &p ) {
               if ( p.type == T::Float && r.chance( 1, 2 ) )
               {
                  fillFloat( p );
               }
               if ( p.type == T::String && r.chance( 1, 2 ) )
               {
                  p.sv = text( 20 );
               }
               for ( auto &c : p.kids )
               {
                  deco( c );
               }
            };
            deco( *n.proto );
            if ( r.chance( 1, 4 ) )
            {
               // codec descriptions are stored, not interpreted
               Node c( T::Structure, "" );
               Node in( T::Vector, "inputs" );
               in.kids.emplace_back( T::String, "" );
               in.kids.back().sv = "x";
               c.kids.push_back( in );
               Node bp( T::Structure, "bitPackCodec" );
               c.kids.push_back( bp );
               n.codecs->kids.push_back( c );
            }
            return n;
         }
         return leafNode( name );
      }
      void fillFloat( Node &n )
      {
         const bool single = n.single;
         do
         {
            fillLeaf( n );
         } while ( n.single != single );
      }
      static void deepCopy( Node &n )
      {
         if ( n.proto )
         {
            n.proto = std::make_shared<Node>( *n.proto );
            n.codecs = std::make_shared<Node>( *n.codecs );
         }
         for ( auto &k : n.kids )
         {
            deepCopy( k );
         }
      }
      void fillTree( Node &n, const TreeOpts &o, unsigned &budget, unsigned depth, unsigned kids )
      {
         for ( unsigned j = 0; j < kids && budget > 0; j++ )
         {
            const string nm = uniqueName( n, o.prefixes );
            n.kids.push_back( anyNode( nm, o, budget, depth ) );
         }
      }
      Node tree( const TreeOpts &o )
      {
         Node root( T::Structure, "" );
         unsigned b = o.budget;
         fillTree( root, o, b, o.depth, o.budget );
         return root;
      }
      // extension declarations
      vector<std::pair<string, string>> extensions( unsigned max )
      {
         vector<std::pair<string, string>> out;
         const unsigned n = unsigned( r.below( max + 1 ) );
         while ( out.size() < n )
         {
            string p = ident();
            if ( p.size() > 12 )
            {
               p.resize( 12 );
            }
            bool dup = reserved( p );
            for ( auto &x : out )
            {
               dup = dup || x.first == p;
            }
            if ( !dup )
            {
               string uri = r.pick( vector<string>{ "http://www.example.com/", "urn:x-", "ftp://h/" } ) + std::to_string( out.size() ) + "/" + ident();
               if ( r.chance( 1, 4 ) )
               {
                  uri += r.pick( vector<string>{ "?a=1&b=2", "#f", "%20", "/\xC3\xA9", "'", "?q=<x>", "?\"q\"" } );
               }
               out.emplace_back( p, uri );
            }
         }
         return out;
      }
   };
}
