// C20: element names, paths and extension prefixes follow the naming rules.
#include "api.h"
#include "ref.h"
#include <algorithm>
#include <set>
using namespace api;
using std::set;

namespace
{
   using Codes = set<int>;
   const string kDefault = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0";

   bool first( unsigned char c )
   {
      return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_' || c >= 128;
   }
   bool later( unsigned char c )
   {
      return first( c ) || ( c >= '0' && c <= '9' ) || c == '-' || c == '.';
   }
   bool ident( const string &s )
   {
      return !s.empty() && first( s[0] ) && std::all_of( s.begin(), s.end(), []( char c ) { return later( c ); } );
   }
   bool number( const string &s )
   {
      return !s.empty() && s.find_first_not_of( "0123456789" ) == string::npos;
   }
   bool high( const string &s )
   {
      return std::any_of( s.begin(), s.end(), []( char c ) { return ( c & 0x80 ) != 0; } );
   }
   // ID or ID:ID
   bool named( const string &s, string &prefix, string &local )
   {
      const size_t p = s.find( ':' );
      prefix = p == string::npos ? "" : s.substr( 0, p );
      local = p == string::npos ? s : s.substr( p + 1 );
      return ( p == string::npos || ident( prefix ) ) && ident( local );
   }

   struct Names
   {
      Rng &r;
      vector<string> prefixes; // for names which use one
      string letter()
      {
         return string( 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[r.below( 53 )] );
      }
      string id()
      {
         string s = letter();
         const size_t n = r.chance( 1, 20 ) ? r.below( 3000 ) : r.below( 8 );
         for ( size_t k = 0; k < n; k++ )
         {
            s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-."[r.below( 65 )];
         }
         return s;
      }
      string anyChar()
      {
         switch ( r.below( 6 ) )
         {
            case 0:
               return string( 1, char( r.below( 128 ) ) );
            case 1:
               return string( 1, ":/-. 0129_@[`{^|~!\"'&<>"[r.below( 23 )] );
            case 2:
               return r.pick( { string( "\xC3\xA9" ), string( "\xE6\xBC\xA2" ), string( "\xCE\xA9" ) } );
            default:
               return letter();
         }
      }
      string any()
      {
         switch ( r.below( 8 ) )
         {
            case 0:
            case 1:
               return id();
            case 2:
               return prefixes.empty() ? id() : r.pick( prefixes ) + ":" + id();
            case 3:
               return std::to_string( r.below( r.chance( 1, 3 ) ? 100000000 : 4 ) );
            case 4:
            {
               // nearly right
               string s = r.chance( 1, 2 ) || prefixes.empty() ? id() : r.pick( prefixes ) + ":" + id();
               const size_t at = r.chance( 1, 3 ) ? 0 : r.below( s.size() + 1 );
               r.chance( 1, 2 ) ? s.insert( at, anyChar() ) : s.replace( at, at < s.size() ? 1 : 0, anyChar() );
               return s;
            }
            case 5:
               return r.pick( { string( "" ), string( ":" ), string( "a:" ), string( ":a" ), string( "a:b:c" ), string( "-a" ), string( ".a" ), string( "a b" ), string( "1a" ), string( "a:1" ), string( "a:-b" ),
                                string( "a:.b" ), string( "_" ), string( "_:_" ), string( "a::b" ), string( "00" ), string( "0" ), string( "a\0b", 3 ), string( "type" ), string( "e57Root" ), string( "xmlns" ) } );
            case 6:
               return id() + ":" + id(); // mostly not declared
            default:
            {
               string s;
               const size_t n = r.below( 6 );
               for ( size_t k = 0; k < n; k++ )
               {
                  s += anyChar();
               }
               return s;
            }
         }
      }
   };

   string show( const string &s )
   {
      return mon::quote( s.size() > 80 ? s.substr( 0, 80 ) + "..." : s );
   }
   string list( const Codes &c )
   {
      string s;
      for ( int k : c )
      {
         s += " " + e57::Utilities::errorCodeToString( e57::ErrorCode( k ) );
      }
      return s;
   }

   struct World
   {
      mon::Ctx &c;
      Rng &r;
      Names g;
      vector<std::pair<string, string>> ext;
      bool declared( const string &p ) const
      {
         return std::any_of( ext.begin(), ext.end(), [&]( const std::pair<string, string> &x ) { return x.first == p; } );
      }

      // ---------------------------------------------------------- grammar
      void grammar( ImageFile &imf )
      {
         const string s = g.any();
         string p, l, gp = "?", gl = "?";
         const bool ok = named( s, p, l );
         const auto a = mon::attempt( [&] { imf.elementNameParse( s, gp, gl ); } );
         if ( a.threw )
         {
            MON_CHECK( a.code == e57::ErrorPathNameMalformed || a.code == e57::ErrorPathNameEmpty, "other-error", "elementNameParse " + show( s ) + ": " + a.str() );
            MON_CHECK( !s.empty() || a.code == e57::ErrorPathNameEmpty, "other-error", "elementNameParse of nothing: " + a.str() );
            MON_CHECK( !ok || high( s ), "legal-name-refused", "elementNameParse " + show( s ) + ": " + a.str() );
            mon::count( "names refused" );
         }
         else if ( !number( s ) )
         {
            MON_CHECK( ok, "illegal-name-accepted", "elementNameParse " + show( s ) );
            MON_CHECK( gp == p && gl == l, "name-split", show( s ) + " into " + show( gp ) + " and " + show( gl ) );
            mon::count( "names accepted" );
         }
         bool e = false;
         const auto b = mon::attempt( [&] { e = imf.isElementNameExtended( s ); } );
         MON_CHECK( !b.threw, "query-threw", "isElementNameExtended " + show( s ) + ": " + b.str() );
         MON_CHECK( e == ( ok && !p.empty() ) || high( s ), "name-extended", show( s ) + fmt( ": %d", e ) );
         mon::distinct( "case", "n" + s );
      }
      // errors of a path; empty if it is well formed
      Codes malformed( const string &path, vector<string> &parts, bool &trailing, bool &undeclared, bool &odd )
      {
         Codes may;
         parts.clear();
         trailing = undeclared = odd = false;
         size_t at = !path.empty() && path[0] == '/' ? 1 : 0;
         if ( path.empty() )
         {
            may.insert( e57::ErrorPathNameEmpty );
         }
         while ( at < path.size() )
         {
            const size_t e = std::min( path.find( '/', at ), path.size() );
            const string s = path.substr( at, e - at );
            string p, l;
            if ( s.empty() )
            {
               may.insert( e57::ErrorPathNameEmpty );
               may.insert( e57::ErrorPathNameMalformed );
            }
            else if ( !number( s ) && !named( s, p, l ) )
            {
               may.insert( e57::ErrorPathNameMalformed );
            }
            else if ( !number( s ) && !p.empty() && !declared( p ) )
            {
               undeclared = true;
            }
            odd = odd || high( s );
            parts.push_back( s );
            trailing = e + 1 == path.size();
            at = e + 1;
         }
         return may;
      }
      string anyPath()
      {
         string s = r.chance( 1, 3 ) ? "/" : "";
         const unsigned n = 1 + unsigned( r.below( 3 ) );
         for ( unsigned k = 0; k < n; k++ )
         {
            s += ( k ? "/" : "" ) + ( r.chance( 2, 3 ) ? g.id() : g.any() );
         }
         if ( r.chance( 1, 12 ) )
         {
            s += "/";
         }
         if ( r.chance( 1, 20 ) )
         {
            s.insert( r.below( s.size() + 1 ), "/" );
         }
         return s;
      }
      // asking for something which is not there
      template <class N> void absent( const N &n, const string &path )
      {
         vector<string> parts;
         bool trailing, undeclared, odd;
         Codes may = malformed( path, parts, trailing, undeclared, odd );
         bool def = false;
         const auto a = mon::attempt( [&] { def = n.isDefined( path ); } );
         const string what = "isDefined " + show( path );
         if ( !a.threw )
         {
            MON_CHECK( may.empty() || undeclared, "illegal-path-accepted", what );
            MON_CHECK( def == ( path == "/" ), "defined", what );
         }
         else
         {
            if ( trailing )
            {
               may.insert( e57::ErrorPathNameEmpty );
               may.insert( e57::ErrorPathNameMalformed );
            }
            if ( odd )
            {
               may.insert( e57::ErrorPathNameMalformed );
            }
            MON_CHECK( !may.empty(), "query-threw", what + ": " + a.str() );
            MON_CHECK( may.count( a.code ), "other-error", what + ": " + a.str() + "; expected" + list( may ) );
         }
         if ( undeclared )
         {
            may.insert( e57::ErrorPathNameExtensionNotRegistered );
         }
         else if ( may.empty() )
         {
            may.insert( e57::ErrorPathUndefined );
         }
         if ( trailing || odd )
         {
            may.insert( e57::ErrorPathUndefined );
            may.insert( e57::ErrorPathNameEmpty );
            may.insert( e57::ErrorPathNameMalformed );
         }
         if ( path == "/" )
         {
            return;
         }
         const auto b = mon::attempt( [&] { n.get( path ); } );
         MON_CHECK( b.threw && may.count( b.code ), "other-error", "get " + show( path ) + ": " + b.str() + "; expected" + list( may ) );
         mon::count( "paths looked up in vain" );
         mon::distinct( "case", "p" + path );
      }
      // ---------------------------------------------------------- extensions
      void declare( ImageFile &imf )
      {
         string p, u;
         switch ( r.below( 8 ) )
         {
            case 0:
               p = g.any();
               break;
            case 1:
               p = ext.empty() ? "" : r.pick( ext ).first;
               break;
            case 2:
               p = r.pick( { string( "" ), string( "xml" ), string( "xmlns" ), string( "a:b" ), string( "9" ), string( "a b" ) } );
               break;
            default:
               p = g.id();
         }
         switch ( r.below( 8 ) )
         {
            case 0:
               u = ext.empty() ? "u" : r.pick( ext ).second;
               break;
            case 1:
               u = r.pick( { string( "" ), kDefault, string( "a&b<c>\"d'e" ), string( " x \t y\n z " ), string( "http://\xC3\xA9/\xE6\xBC\xA2" ) } );
               break;
            default:
               u = "http://www.example.com/" + g.id();
         }
         Codes may;
         bool open = false; // left to the library
         const bool dup = declared( p );
         if ( dup )
         {
            may.insert( e57::ErrorDuplicateNamespacePrefix );
         }
         if ( std::any_of( ext.begin(), ext.end(), [&]( const std::pair<string, string> &x ) { return x.second == u; } ) )
         {
            may.insert( e57::ErrorDuplicateNamespaceURI );
         }
         string pp, pl;
         if ( u.empty() || p == "xml" || p == "xmlns" || ( !p.empty() && ( !named( p, pp, pl ) || !pp.empty() ) ) )
         {
            may.insert( e57::ErrorBadAPIArgument );
         }
         if ( p.empty() && u != kDefault )
         {
            may.insert( e57::ErrorBadAPIArgument );
         }
         if ( !p.empty() && u == kDefault )
         {
            may.insert( e57::ErrorDuplicateNamespaceURI );
         }
         Codes extra;
         if ( p.empty() || high( p ) )
         {
            open = may.empty();
            extra.insert( e57::ErrorBadAPIArgument );
         }
         const string what = "declare " + show( p ) + " as " + show( u );
         mon::note( what );
         const auto a = mon::attempt( [&] { imf.extensionsAdd( p, u ); } );
         if ( a.threw )
         {
            MON_CHECK( !may.empty() || open, "legal-extension-refused", what + ": " + a.str() );
            MON_CHECK( may.count( a.code ) || extra.count( a.code ), "other-error", what + ": " + a.str() + "; expected" + list( may ) );
            mon::count( "declarations refused" );
         }
         else
         {
            MON_CHECK( may.empty(), "illegal-extension-accepted", what + "; expected" + list( may ) );
            ext.emplace_back( p, u );
            if ( !p.empty() )
            {
               g.prefixes.push_back( p );
            }
            mon::count( "declarations" );
         }
         table( imf );
      }
      void table( ImageFile &imf )
      {
         const size_t n = imf.extensionsCount();
         // the default namespace may be counted after reading
         const bool def = declared( "" );
         size_t seen = 0;
         set<string> ps, us;
         for ( size_t k = 0; k < n; k++ )
         {
            const string p = imf.extensionsPrefix( k ), u = imf.extensionsUri( k );
            ps.insert( p );
            us.insert( u );
            const auto it = std::find( ext.begin(), ext.end(), std::make_pair( p, u ) );
            MON_CHECK( it != ext.end() || ( p.empty() && !def && u == kDefault ), "extension-table", show( p ) + " as " + show( u ) );
            seen += it != ext.end();
         }
         MON_CHECK( seen == ext.size() && ps.size() == n && us.size() == n, "extension-table", fmt( "%zu of %zu, %zu listed", seen, ext.size(), n ) );
         for ( auto &x : ext )
         {
            string u = "?", p = "?";
            MON_CHECK( imf.extensionsLookupPrefix( x.first ) && imf.extensionsLookupPrefix( x.first, u ) && u == x.second, "lookup-prefix", show( x.first ) + " gives " + show( u ) );
            MON_CHECK( imf.extensionsLookupUri( x.second, p ) && p == x.first, "lookup-uri", show( x.second ) + " gives " + show( p ) );
            mon::count( "extensions looked up" );
         }
         string u = "kept";
         const string no = "no" + g.id();
         if ( !declared( no ) )
         {
            MON_CHECK( !imf.extensionsLookupPrefix( no, u ) && !imf.extensionsLookupPrefix( no ) && !imf.extensionsLookupUri( no, u ) && u == "kept", "lookup-absent", show( no ) );
         }
         for ( size_t k : { n, n + 1, size_t( INT64_MAX ), SIZE_MAX } )
         {
            const auto a = mon::attempt( [&] { imf.extensionsPrefix( k ); } ), b = mon::attempt( [&] { imf.extensionsUri( k ); } );
            MON_CHECK( a.threw && a.code == e57::ErrorBadAPIArgument && b.threw && b.code == e57::ErrorBadAPIArgument, "extension-index", fmt( "%zu of %zu: ", k, n ) + a.str() + " " + b.str() );
         }
      }
   };

   struct Box
   {
      string path; // absolute, "" for the root
      vector<std::pair<string, string>> kids; // name and value; boxes hold "{"
   };
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   World w{ c, r, { r, {} }, {} };
   const string path = c.path( "c20.e57" );
   vector<Box> boxes( 1 );
   vector<std::pair<string, int64_t>> fields; // of the records
   size_t cvBox = 0;
   bool cv = false;
   {
      ImageFile imf( path, "w" );
      e57::StructureNode root = imf.root();
      const unsigned steps = 20 + unsigned( r.below( 40 ) );
      for ( unsigned k = 0; k < steps; k++ )
      {
         switch ( r.below( 7 ) )
         {
            case 0:
               w.declare( imf );
               break;
            case 1:
               w.grammar( imf );
               break;
            case 2:
            {
               const string p = w.anyPath();
               // unlikely to be there
               bool there = false;
               for ( auto &b : boxes )
               {
                  for ( auto &x : b.kids )
                  {
                     const string q = b.path + "/" + x.first;
                     there = there || q == p || q == "/" + p || q + "/" == p || q + "/" == "/" + p;
                  }
               }
               if ( !there )
               {
                  w.absent( root, p );
               }
               break;
            }
            default:
            {
               // a new element somewhere
               const size_t at = r.below( boxes.size() );
               string name = r.chance( 1, 3 ) && !boxes[at].kids.empty() ? r.pick( boxes[at].kids ).first : w.g.any();
               if ( r.chance( 1, 30 ) )
               {
                  name += "/";
               }
               if ( name.find( '/' ) != string::npos && name.find( '/' ) + 1 != name.size() )
               {
                  break; // leads elsewhere
               }
               string p, l;
               Codes may;
               bool open = false;
               const bool slash = !name.empty() && name.back() == '/';
               const bool ok = named( name, p, l );
               if ( name == "/" && at == 0 )
               {
                  may.insert( e57::ErrorSetTwice );
               }
               if ( !ok )
               {
                  may.insert( e57::ErrorPathNameMalformed );
                  may.insert( e57::ErrorPathNameEmpty );
               }
               else if ( !p.empty() && !w.declared( p ) )
               {
                  may.insert( e57::ErrorPathNameExtensionNotRegistered );
               }
               if ( slash )
               {
                  may.insert( { e57::ErrorPathUndefined, e57::ErrorInternal, e57::ErrorSetTwice, e57::ErrorPathNameExtensionNotRegistered } );
               }
               if ( high( name ) )
               {
                  open = may.empty();
               }
               if ( std::any_of( boxes[at].kids.begin(), boxes[at].kids.end(), [&]( const std::pair<string, string> &x ) { return x.first == name; } ) )
               {
                  may.insert( e57::ErrorSetTwice );
                  open = false;
               }
               const bool isBox = r.chance( 1, 5 ), relative = r.chance( 1, 2 );
               const string value = fmt( "v%u.%u", k, unsigned( r.below( 1000 ) ) );
               const string full = ( boxes[at].path.empty() && relative ? "" : boxes[at].path + "/" ) + name;
               const string what = "set " + show( full );
               mon::note( what );
               e57::Node n = isBox ? e57::Node( e57::StructureNode( imf ) ) : e57::Node( e57::StringNode( imf, value ) );
               e57::StructureNode parent = at == 0 ? root : e57::StructureNode( root.get( boxes[at].path ) );
               if ( at == 0 && relative && name.empty() )
               {
                  may = { e57::ErrorPathNameEmpty, e57::ErrorPathNameMalformed };
               }
               if ( name.empty() && !relative )
               {
                  may = { e57::ErrorPathNameEmpty, e57::ErrorPathNameMalformed, e57::ErrorSetTwice };
               }
               const auto a = mon::attempt( [&] { relative ? parent.set( name, n ) : root.set( boxes[at].path + "/" + name, n ); } );
               if ( a.threw )
               {
                  if ( open || high( name ) )
                  {
                     may.insert( e57::ErrorPathNameMalformed );
                  }
                  MON_CHECK( !may.empty(), "legal-name-refused", what + ": " + a.str() );
                  MON_CHECK( may.count( a.code ), "other-error", what + ": " + a.str() + "; expected" + list( may ) );
                  MON_CHECK( n.isRoot() && !n.isAttached() && n.elementName().empty(), "refused-element-changed", what );
                  mon::count( "elements refused" );
               }
               else
               {
                  MON_CHECK( may.empty(), "illegal-name-accepted", what + "; expected" + list( may ) );
                  MON_CHECK( n.elementName() == name && n.pathName() == boxes[at].path + "/" + name, "element-name", what + ": " + show( n.pathName() ) );
                  boxes[at].kids.emplace_back( name, isBox ? "{" : value );
                  if ( isBox )
                  {
                     Box b;
                     b.path = boxes[at].path + "/" + name;
                     boxes.push_back( b );
                  }
                  mon::count( "elements added" );
               }
               MON_CHECK( parent.childCount() == int64_t( boxes[at].kids.size() ), "child-count", what + fmt( ": %" PRId64, parent.childCount() ) );
            }
         }
      }
      // records whose fields bear such names
      e57::StructureNode proto( imf );
      for ( unsigned k = 0; k < 4; k++ )
      {
         const string name = r.chance( 1, 2 ) && !w.g.prefixes.empty() ? r.pick( w.g.prefixes ) + ":" + w.g.id() : w.g.id();
         if ( !proto.isDefined( name ) )
         {
            proto.set( name, e57::IntegerNode( imf, 0, 0, 1000 ) );
            fields.emplace_back( name, int64_t( r.below( 1000 ) ) );
         }
      }
      cvBox = r.below( boxes.size() );
      e57::CompressedVectorNode v( imf, proto, e57::VectorNode( imf, true ) );
      const string at = boxes[cvBox].path + "/records.of_this-file";
      cv = !root.isDefined( at );
      if ( cv )
      {
         root.set( at, v );
         vector<int64_t> buf( fields.size() );
         vector<e57::SourceDestBuffer> sd;
         for ( size_t k = 0; k < fields.size(); k++ )
         {
            buf[k] = fields[k].second;
            sd.emplace_back( imf, fields[k].first, &buf[k], 1 );
         }
         auto wr = v.writer( sd );
         wr.write( 1 );
         wr.close();
         // and a buffer for a field which is not there
         int64_t x = 0;
         const string name = w.g.any();
         vector<string> parts;
         bool trailing, undeclared, odd;
         Codes may = w.malformed( name, parts, trailing, undeclared, odd );
         const auto a = mon::attempt( [&] { e57::SourceDestBuffer b( imf, name, &x, 1 ); } );
         if ( !may.empty() && !undeclared )
         {
            MON_CHECK( a.threw && ( may.count( a.code ) || trailing ), "other-error", "buffer for " + show( name ) + ": " + a.str() );
         }
      }
      imf.close();
   }
   // what is in the file, for another reader
   try
   {
      ref::parseFile( mon::slurp( path ) );
   }
   catch ( const ref::Bad &b )
   {
      mon::fail( "closed-file-malformed", b.key + " " + b.detail );
   }
   ImageFile imf( path, "r" );
   w.table( imf );
   string u;
   MON_CHECK( imf.extensionsLookupPrefix( "", u ) && ( w.declared( "" ) || u == kDefault ), "default-namespace", show( u ) );
   const auto ro = mon::attempt( [&] { imf.extensionsAdd( "late", "http://late" ); } );
   MON_CHECK( ro.threw && ro.code == e57::ErrorFileReadOnly, "declared-in-read-mode", ro.str() );
   e57::StructureNode root = imf.root();
   for ( auto &b : boxes )
   {
      e57::StructureNode n = b.path.empty() ? root : e57::StructureNode( root.get( b.path ) );
      const size_t more = cv && &b == &boxes[cvBox];
      MON_CHECK( n.childCount() == int64_t( b.kids.size() + more ), "reopened-child-count", show( b.path ) + fmt( ": %" PRId64 " instead of %zu", n.childCount(), b.kids.size() + more ) );
      for ( size_t k = 0; k < b.kids.size(); k++ )
      {
         const string &name = b.kids[k].first, full = b.path + "/" + name;
         const string what = show( full );
         MON_CHECK( n.isDefined( name ) && root.isDefined( full ), "reopened-undefined", what );
         e57::Node x = n.get( name );
         MON_CHECK( x == root.get( full ) && x == n.get( int64_t( k ) ) && x.elementName() == name && x.pathName() == full, "reopened-name", what + ": " + show( x.pathName() ) );
         if ( b.kids[k].second != "{" )
         {
            MON_CHECK( e57::StringNode( x ).value() == b.kids[k].second, "reopened-value", what );
            w.absent( n, name + "/" + w.g.id() );
         }
         mon::count( "names found again" );
      }
   }
   if ( cv )
   {
      e57::CompressedVectorNode v( root.get( boxes[cvBox].path + "/records.of_this-file" ) );
      vector<int64_t> buf( fields.size(), -1 );
      vector<e57::SourceDestBuffer> sd;
      for ( size_t k = 0; k < fields.size(); k++ )
      {
         sd.emplace_back( imf, fields[k].first, &buf[k], 1 );
      }
      auto rd = v.reader( sd );
      MON_CHECK( rd.read() == 1, "reopened-records", "nothing read" );
      for ( size_t k = 0; k < fields.size(); k++ )
      {
         MON_CHECK( buf[k] == fields[k].second, "reopened-records", show( fields[k].first ) );
         mon::count( "field names found again" );
      }
      rd.close();
   }
   for ( unsigned k = 0; k < 10; k++ )
   {
      w.grammar( imf );
   }
   imf.close();
   mon::sample( fmt( "%zu structures, %zu extensions", boxes.size(), w.ext.size() ) );
}

// A name which is no name in XML: bytes above 127 are not looked at
static void foreignName( mon::Ctx &c )
{
   const string path = c.path( "probe.e57" );
   {
      ImageFile imf( path, "w" );
      const auto a = mon::attempt( [&] { imf.root().set( "a\xC3\x97", e57::StringNode( imf, "x" ) ); } );
      if ( a.threw )
      {
         imf.cancel();
         return;
      }
      imf.close();
   }
   const auto b = mon::attempt( [&] {
      ImageFile imf( path, "r" );
      imf.close();
   } );
   MON_CHECK( !b.threw, "closed-file-refused", b.str() );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C20";
   s.run = run;
   s.probes["non-xml-name"] = foreignName;
   return mon::mainLoop( argc, argv, s );
}
