// C11: element trees stay consistent under any sequence of operations.
// A model of all elements predicts the outcome of every operation, and what all queries return afterwards.
#include "api.h"
#include <algorithm>
#include <set>
using namespace api;
using std::set;

namespace
{
   using Codes = set<int>;

   struct Obj
   {
      e57::Node h;
      T type;
      int file;
      int parent = -1;
      string name;
      vector<int> kids;
      bool attached = false;
      bool root = false; // the predefined root of its file
      bool hetero = true;
      // what makes elements alike
      int64_t imin = 0, imax = 0, length = 0;
      double scale = 1, offset = 0, fmin = 0, fmax = 0;
      bool single = false;
      int proto = -1, codecs = -1;
      int user = -1; // vector of records it describes
      // what it holds
      int64_t iv = 0;
      double fv = 0;
      string sv;
      explicit Obj( const e57::Node &n, T t, int f ) : h( n ), type( t ), file( f )
      {
      }
   };

   struct World
   {
      mon::Ctx &c;
      Rng &r;
      vector<ImageFile> files;
      vector<Obj> o;
      unsigned names = 0;

      explicit World( mon::Ctx &ctx ) : c( ctx ), r( ctx.rng )
      {
      }
      bool box( int i ) const
      {
         return o[i].type == T::Structure || o[i].type == T::Vector;
      }
      int top( int i ) const
      {
         while ( o[i].parent >= 0 )
         {
            i = o[i].parent;
         }
         return i;
      }
      int find( int i, const string &name ) const
      {
         for ( int k : o[i].kids )
         {
            if ( o[k].name == name )
            {
               return k;
            }
         }
         return -1;
      }
      string path( int i ) const
      {
         if ( o[i].parent < 0 )
         {
            return "/";
         }
         string p = "/" + o[i].name;
         for ( i = o[i].parent; o[i].parent >= 0; i = o[i].parent )
         {
            p = "/" + o[i].name + p;
         }
         return p;
      }
      bool constrained( int i ) const
      {
         for ( i = o[i].parent; i >= 0; i = o[i].parent )
         {
            if ( o[i].type == T::Vector && !o[i].hetero && o[i].kids.size() > 1 )
            {
               return true;
            }
         }
         return false;
      }
      bool alike( int a, int b ) const
      {
         const Obj &x = o[a], &y = o[b];
         if ( x.type != y.type )
         {
            return false;
         }
         switch ( x.type )
         {
            case T::Integer:
               return x.imin == y.imin && x.imax == y.imax;
            case T::Scaled:
               return x.imin == y.imin && x.imax == y.imax && x.scale == y.scale && x.offset == y.offset;
            case T::Float:
               return x.single == y.single && x.fmin == y.fmin && x.fmax == y.fmax;
            case T::String:
               return true;
            case T::Blob:
               return x.length == y.length;
            case T::CompressedVector:
               return alike( x.proto, y.proto ) && alike( x.codecs, y.codecs );
            case T::Vector:
               if ( x.hetero != y.hetero )
               {
                  return false;
               }
               // fall through
            default:
               break;
         }
         if ( x.kids.size() != y.kids.size() )
         {
            return false;
         }
         for ( int k : x.kids )
         {
            const int m = find( b, o[k].name );
            if ( m < 0 || !alike( k, m ) )
            {
               return false;
            }
         }
         return true;
      }
      void attach( int i )
      {
         o[i].attached = true;
         for ( int k : o[i].kids )
         {
            attach( k );
         }
         if ( o[i].type == T::CompressedVector )
         {
            attach( o[i].proto );
            attach( o[i].codecs );
         }
      }
      void link( int p, int n, const string &name )
      {
         o[n].parent = p;
         o[n].name = name;
         o[p].kids.push_back( n );
         if ( o[p].attached )
         {
            attach( n );
         }
      }
      bool has( int i, T t ) const
      {
         if ( o[i].type == t )
         {
            return true;
         }
         for ( int k : o[i].kids )
         {
            if ( has( k, t ) )
            {
               return true;
            }
         }
         return false;
      }
      int add( const Obj &x )
      {
         o.push_back( x );
         mon::count( "elements created" );
         return int( o.size() ) - 1;
      }
      // a leaf out of few kinds, so that many are alike
      int leaf( int f )
      {
         const ImageFile &imf = files[f];
         switch ( r.below( 6 ) )
         {
            case 0:
            {
               const int64_t lo = -int64_t( r.below( 2 ) ), hi = 5 + int64_t( r.below( 2 ) ), v = r.range( lo, hi );
               Obj x( e57::IntegerNode( imf, v, lo, hi ), T::Integer, f );
               x.imin = lo;
               x.imax = hi;
               x.iv = v;
               return add( x );
            }
            case 1:
            {
               const int64_t lo = -int64_t( r.below( 2 ) ), hi = 5 + int64_t( r.below( 2 ) ), v = r.range( lo, hi );
               const double s = r.chance( 1, 2 ) ? 0.5 : 0.25, of = r.chance( 1, 2 ) ? 0 : 1;
               Obj x( e57::ScaledIntegerNode( imf, v, lo, hi, s, of ), T::Scaled, f );
               x.imin = lo;
               x.imax = hi;
               x.iv = v;
               x.scale = s;
               x.offset = of;
               return add( x );
            }
            case 2:
            {
               const bool single = r.chance( 1, 2 );
               const double lo = r.chance( 1, 2 ) ? -1 : -2, hi = r.chance( 1, 2 ) ? 1 : 2, v = r.chance( 1, 2 ) ? 0.5 : -0.5;
               Obj x( e57::FloatNode( imf, v, single ? e57::PrecisionSingle : e57::PrecisionDouble, lo, hi ), T::Float, f );
               x.single = single;
               x.fmin = lo;
               x.fmax = hi;
               x.fv = v;
               return add( x );
            }
            case 3:
            {
               Obj x( e57::BlobNode( imf, 4 + 4 * int64_t( 0 ) ), T::Blob, f );
               x.length = 4;
               if ( r.chance( 1, 2 ) )
               {
                  x.h = e57::BlobNode( imf, 7 );
                  x.length = 7;
               }
               return add( x );
            }
            default:
            {
               const string s = fmt( "s%u", unsigned( r.below( 5 ) ) );
               Obj x( e57::StringNode( imf, s ), T::String, f );
               x.sv = s;
               return add( x );
            }
         }
      }
      int structure( int f )
      {
         return add( Obj( e57::StructureNode( files[f] ), T::Structure, f ) );
      }
      int vec( int f, bool hetero )
      {
         Obj x( e57::VectorNode( files[f], hetero ), T::Vector, f );
         x.hetero = hetero;
         return add( x );
      }
      // a tree of a few elements built by allowed operations
      int small( int f, unsigned depth )
      {
         if ( depth == 0 || r.chance( 1, 3 ) )
         {
            return leaf( f );
         }
         if ( r.chance( 2, 3 ) )
         {
            const int s = structure( f );
            const unsigned n = unsigned( r.below( 3 ) );
            // the same few names in different order
            vector<string> nm{ "a", "b", "c" };
            for ( unsigned k = 0; k < n; k++ )
            {
               const size_t at = r.below( nm.size() );
               set_( s, nm[at], small( f, depth - 1 ) );
               nm.erase( nm.begin() + long( at ) );
            }
            return s;
         }
         const int v = vec( f, r.chance( 1, 2 ) );
         const unsigned n = unsigned( r.below( 3 ) );
         for ( unsigned k = 0; k < n; k++ )
         {
            append_( v, small( f, depth - 1 ) );
         }
         return v;
      }
      // what an operation made of the tree
      bool outcome( const mon::Outcome &x, const Codes &may, const string &what )
      {
         mon::note( what + " -> " + ( x.threw ? x.str().substr( 0, 60 ) : string( "done" ) ) );
         if ( may.empty() )
         {
            MON_CHECK( !x.threw, "legal-operation-refused", what + ": " + x.str() );
            mon::count( "operations done" );
            return true;
         }
         string list;
         for ( int k : may )
         {
            list += " " + e57::Utilities::errorCodeToString( e57::ErrorCode( k ) );
         }
         MON_CHECK( x.threw, "forbidden-operation-done", what + ": expected" + list );
         MON_CHECK( may.count( x.code ), "other-error", what + ": " + x.str() + "; expected" + list );
         mon::count( "operations refused" );
         mon::distinct( "refusal", x.str().substr( 0, 50 ) );
         return false;
      }
      void parentable( Codes &may, int p, int n ) const
      {
         if ( o[p].file != o[n].file )
         {
            may.insert( e57::ErrorDifferentDestImageFile );
         }
         if ( o[n].parent >= 0 || o[n].attached || top( p ) == n )
         {
            may.insert( e57::ErrorAlreadyHasParent );
         }
         if ( constrained( p ) )
         {
            may.insert( e57::ErrorHomogeneousViolation );
         }
         if ( o[p].type == T::Vector && !o[p].hetero )
         {
            for ( int k : o[p].kids )
            {
               if ( !alike( k, n ) )
               {
                  may.insert( e57::ErrorHomogeneousViolation );
               }
            }
         }
      }
      static vector<string> split( const string &path, bool &absolute )
      {
         vector<string> f;
         absolute = path[0] == '/';
         size_t p = absolute ? 1 : 0;
         while ( p < path.size() )
         {
            const size_t e = std::min( path.find( '/', p ), path.size() );
            f.push_back( path.substr( p, e - p ) );
            p = e + 1;
         }
         return f;
      }
      static bool number( const string &s )
      {
         return !s.empty() && s.find_first_not_of( "0123456789" ) == string::npos;
      }
      void set_( int s, const string &path, int n )
      {
         Codes may;
         bool absolute;
         const vector<string> f = split( path, absolute );
         int p = absolute ? top( s ) : s;
         bool reached = true;
         for ( size_t k = 0; k + 1 < f.size(); k++ )
         {
            const int q = box( p ) ? find( p, f[k] ) : -1;
            if ( q < 0 )
            {
               may.insert( e57::ErrorPathUndefined );
               if ( !box( p ) )
               {
                  may.insert( e57::ErrorInternal );
               }
               else if ( constrained( p ) )
               {
                  may.insert( e57::ErrorHomogeneousViolation );
               }
               reached = false;
               break;
            }
            p = q;
         }
         if ( reached && f.empty() )
         {
            may.insert( e57::ErrorSetTwice );
            reached = false;
         }
         if ( reached && !box( p ) )
         {
            may = { e57::ErrorPathUndefined, e57::ErrorInternal };
            reached = false;
         }
         if ( reached )
         {
            const string &last = f.back();
            if ( find( p, last ) >= 0 )
            {
               may.insert( e57::ErrorSetTwice );
            }
            else if ( o[p].type == T::Vector ? last != std::to_string( o[p].kids.size() ) : number( last ) )
            {
               may.insert( e57::ErrorPathNameMalformed );
               may.insert( e57::ErrorPathUndefined );
               may.insert( e57::ErrorChildIndexOutOfBounds );
            }
         }
         if ( reached || !may.empty() )
         {
            parentable( may, p, n );
         }
         const auto x = mon::attempt( [&] { e57::StructureNode( o[s].h ).set( path, o[n].h ); } );
         if ( outcome( x, may, fmt( "set(%d, %s, %d)", s, path.c_str(), n ) ) )
         {
            link( p, n, f.back() );
         }
      }
      void append_( int v, int n )
      {
         Codes may;
         parentable( may, v, n );
         const auto x = mon::attempt( [&] { e57::VectorNode( o[v].h ).append( o[n].h ); } );
         if ( outcome( x, may, fmt( "append(%d, %d)", v, n ) ) )
         {
            link( v, n, std::to_string( o[v].kids.size() ) );
         }
      }
      void records( int f, int proto, int codecs )
      {
         Codes may;
         for ( int k : { proto, codecs } )
         {
            if ( o[k].file != f )
            {
               may.insert( e57::ErrorDifferentDestImageFile );
            }
            if ( o[k].parent >= 0 || o[k].attached )
            {
               may.insert( e57::ErrorAlreadyHasParent );
            }
         }
         std::unique_ptr<e57::CompressedVectorNode> cv;
         const auto x = mon::attempt( [&] { cv.reset( new e57::CompressedVectorNode( files[f], o[proto].h, e57::VectorNode( o[codecs].h ) ) ); } );
         if ( outcome( x, may, fmt( "records(%d, %d, %d)", f, proto, codecs ) ) )
         {
            Obj n( *cv, T::CompressedVector, f );
            n.proto = proto;
            n.codecs = codecs;
            const int i = add( n );
            o[proto].user = o[codecs].user = i;
         }
      }

      // ------------------------------------------------------------ queries
      void same( const e57::Node &got, int want, const char *key, const string &what )
      {
         MON_CHECK( got == o[want].h && !( got != o[want].h ), key, what );
         mon::count( "lookups compared" );
      }
      // what any handle of an element answers
      template <class H> void handle( const H &h, int i, const string &me )
      {
         const Obj &x = o[i];
         MON_CHECK( h.isRoot() == ( x.parent < 0 ), "is-root", me );
         MON_CHECK( h.isAttached() == x.attached, "is-attached", me );
         same( h.parent(), x.parent < 0 ? i : x.parent, "parent", me );
         MON_CHECK( h.elementName() == x.name, "element-name", me + ": " + h.elementName() );
         MON_CHECK( h.pathName() == path( i ), "path-name", me + ": " + h.pathName() );
         MON_CHECK( h.destImageFile() == files[x.file] && h.destImageFile() != files[1 - x.file], "destination", me );
         const H copy( h );
         same( e57::Node( copy ), i, "handle", me );
         h.checkInvariant( false, true );
      }
      void inspect( int i )
      {
         Obj &x = o[i];
         e57::Node n = x.h;
         const string me = fmt( "element %d (%s) at %s", i, model::tname( x.type ), path( i ).c_str() );
         static const e57::NodeType types[] = { e57::TypeStructure, e57::TypeVector, e57::TypeCompressedVector, e57::TypeInteger, e57::TypeScaledInteger, e57::TypeFloat, e57::TypeString, e57::TypeBlob };
         static const T mine[] = { T::Structure, T::Vector, T::CompressedVector, T::Integer, T::Scaled, T::Float, T::String, T::Blob };
         for ( unsigned k = 0; k < 8; k++ )
         {
            MON_CHECK( ( n.type() == types[k] ) == ( x.type == mine[k] ), "type", me );
         }
         MON_CHECK( n.isRoot() == ( x.parent < 0 ), "is-root", me );
         MON_CHECK( n.isAttached() == x.attached, "is-attached", me + fmt( ": %d", n.isAttached() ) );
         same( n.parent(), x.parent < 0 ? i : x.parent, "parent", me );
         MON_CHECK( n.elementName() == x.name, "element-name", me + ": " + n.elementName() );
         MON_CHECK( n.pathName() == path( i ), "path-name", me + ": " + n.pathName() );
         MON_CHECK( n.destImageFile() == files[x.file] && n.destImageFile() != files[1 - x.file], "destination", me );
         n.checkInvariant( false, true );
         switch ( x.type )
         {
            case T::Integer:
            {
               e57::IntegerNode v( n );
               handle( v, i, me );
               MON_CHECK( v.value() == x.iv && v.minimum() == x.imin && v.maximum() == x.imax && v.pathName() == path( i ) && v.isAttached() == x.attached && v.elementName() == x.name, "value", me );
               break;
            }
            case T::Scaled:
            {
               e57::ScaledIntegerNode v( n );
               handle( v, i, me );
               MON_CHECK( v.rawValue() == x.iv && v.minimum() == x.imin && v.maximum() == x.imax && v.scale() == x.scale && v.offset() == x.offset && v.pathName() == path( i ), "value", me );
               break;
            }
            case T::Float:
            {
               e57::FloatNode v( n );
               handle( v, i, me );
               MON_CHECK( v.value() == x.fv && v.minimum() == x.fmin && v.maximum() == x.fmax && v.precision() == ( x.single ? e57::PrecisionSingle : e57::PrecisionDouble ), "value", me );
               break;
            }
            case T::String:
               handle( e57::StringNode( n ), i, me );
               MON_CHECK( e57::StringNode( n ).value() == x.sv, "value", me );
               break;
            case T::Blob:
               handle( e57::BlobNode( n ), i, me );
               MON_CHECK( e57::BlobNode( n ).byteCount() == x.length, "value", me );
               break;
            case T::CompressedVector:
            {
               e57::CompressedVectorNode v( n );
               handle( v, i, me );
               MON_CHECK( v.childCount() == 0, "value", me );
               same( v.prototype(), x.proto, "prototype", me );
               same( v.codecs(), x.codecs, "codecs", me );
               break;
            }
            case T::Structure:
            {
               e57::StructureNode v( n );
               handle( v, i, me );
               queries( v, i, me );
               break;
            }
            case T::Vector:
            {
               e57::VectorNode v( n );
               handle( v, i, me );
               MON_CHECK( v.allowHeteroChildren() == x.hetero, "value", me );
               queries( v, i, me );
               break;
            }
         }
         // a handle of a wrong type
         const unsigned w = unsigned( r.below( 8 ) );
         if ( x.type != mine[w] )
         {
            const auto a = mon::attempt( [&] {
               switch ( w )
               {
                  case 0:
                     e57::StructureNode{ n };
                     break;
                  case 1:
                     e57::VectorNode{ n };
                     break;
                  case 2:
                     e57::CompressedVectorNode{ n };
                     break;
                  case 3:
                     e57::IntegerNode{ n };
                     break;
                  case 4:
                     e57::ScaledIntegerNode{ n };
                     break;
                  case 5:
                     e57::FloatNode{ n };
                     break;
                  case 6:
                     e57::StringNode{ n };
                     break;
                  default:
                     e57::BlobNode{ n };
               }
            } );
            MON_CHECK( a.threw && a.code == e57::ErrorBadNodeDowncast, "wrong-downcast", me + fmt( " as %s: ", model::tname( mine[w] ) ) + a.str() );
         }
         mon::count( "elements inspected" );
      }
      template <class V> void queries( const V &v, int i, const string &me )
      {
         const Obj &x = o[i];
         MON_CHECK( v.childCount() == int64_t( x.kids.size() ), "child-count", me + fmt( ": %" PRId64 " instead of %zu", v.childCount(), x.kids.size() ) );
         for ( size_t k = 0; k < x.kids.size(); k++ )
         {
            const Obj &y = o[x.kids[k]];
            same( v.get( int64_t( k ) ), x.kids[k], "child-by-index", me );
            same( v.get( y.name ), x.kids[k], "child-by-name", me );
            MON_CHECK( v.isDefined( y.name ), "defined", me + " " + y.name );
         }
         for ( int64_t k : { int64_t( -1 ), int64_t( x.kids.size() ), INT64_MAX, INT64_MIN, int64_t( 1 ) << 32 } )
         {
            const auto a = mon::attempt( [&] { v.get( k ); } );
            MON_CHECK( a.threw && a.code == e57::ErrorChildIndexOutOfBounds, "bad-index", me + fmt( " index %" PRId64 ": ", k ) + a.str() );
         }
         // any other element of the same tree by its absolute path
         for ( unsigned k = 0; k < 4; k++ )
         {
            const int j = int( r.below( o.size() ) );
            const string p = path( j );
            if ( top( j ) == top( i ) )
            {
               same( v.get( p ), j, "by-absolute-path", me + " " + p );
               MON_CHECK( v.isDefined( p ), "defined", me + " " + p );
               // and by a relative one, from above
               int up = j;
               string rel;
               while ( up >= 0 && up != i )
               {
                  rel = rel.empty() ? o[up].name : o[up].name + "/" + rel;
                  up = o[up].parent;
               }
               if ( up == i && !rel.empty() )
               {
                  same( v.get( rel ), j, "by-relative-path", me + " " + rel );
                  MON_CHECK( v.isDefined( rel ), "defined", me + " " + rel );
               }
            }
            else if ( p != "/" )
            {
               bool abs;
               int q = top( i );
               for ( auto &part : split( p, abs ) )
               {
                  q = q >= 0 && box( q ) ? find( q, part ) : -1;
               }
               MON_CHECK( v.isDefined( p ) == ( q >= 0 ), "defined", me + " " + p );
            }
         }
         // a path which leads nowhere
         string p = r.chance( 1, 2 ) ? "nowhere" : std::to_string( x.kids.size() + r.below( 2 ) );
         if ( !x.kids.empty() && r.chance( 1, 2 ) )
         {
            const Obj &y = o[r.pick( x.kids )];
            p = y.name + ( y.type == T::Vector ? "/" + std::to_string( y.kids.size() ) : "/qq" );
         }
         if ( r.chance( 1, 3 ) )
         {
            p = "/qq/" + p;
         }
         MON_CHECK( !v.isDefined( p ), "defined", me + " " + p );
         const auto a = mon::attempt( [&] { v.get( p ); } );
         MON_CHECK( a.threw && a.code == e57::ErrorPathUndefined, "undefined-path", me + " " + p + ": " + a.str() );
      }
      void inspectAll()
      {
         for ( size_t k = 0; k < o.size(); k++ )
         {
            inspect( int( k ) );
         }
      }

      // ------------------------------------------------------------ operations
      // every second time something already in a file
      int pick( bool ( *ok )( const Obj & ) )
      {
         const bool inFile = r.chance( 1, 2 );
         for ( unsigned k = 0; k < 24; k++ )
         {
            const int i = int( r.below( o.size() ) );
            if ( ok( o[i] ) && ( k >= 12 || o[i].attached || !inFile ) )
            {
               return i;
            }
         }
         return -1;
      }
      // what goes into a tree: mostly something new, sometimes anything there is
      int candidate( int f )
      {
         if ( r.chance( 1, 8 ) )
         {
            f = 1 - f;
         }
         int n = -1;
         if ( r.chance( 1, 3 ) )
         {
            n = int( r.below( o.size() ) );
            // elements which describe records are not to be used elsewhere, which cannot be known before those are attached
            if ( o[n].user >= 0 && !o[n].attached )
            {
               n = -1;
            }
         }
         return n >= 0 ? n : small( f, unsigned( r.below( 4 ) ) );
      }
      string freshName()
      {
         return r.pick( { string( "a" ), string( "b" ), string( "c" ), string( "x-1" ), string( "_y.z" ), fmt( "n%u", names++ ) } );
      }
      void step()
      {
         switch ( r.below( 8 ) )
         {
            case 0:
               small( int( r.below( 2 ) ), 2 );
               break;
            case 1:
            case 2:
            case 3:
            {
               const int s = pick( []( const Obj &x ) { return x.type == T::Structure; } );
               if ( s < 0 || ( o[s].user >= 0 && !o[s].attached ) || protoOf( s ) )
               {
                  break;
               }
               string p;
               switch ( r.below( 6 ) )
               {
                  case 0:
                  case 1:
                     p = freshName();
                     break;
                  case 2:
                  case 3:
                  {
                     // below something in the same tree
                     int q = -1;
                     for ( unsigned k = 0; k < 20 && q < 0; k++ )
                     {
                        q = int( r.below( o.size() ) );
                        q = top( q ) == top( s ) && q != s ? q : -1;
                     }
                     if ( q < 0 )
                     {
                        p = freshName();
                        break;
                     }
                     p = path( q );
                     p += p == "/" ? "" : "/";
                     const size_t n = o[q].kids.size();
                     p += o[q].type == T::Vector ? std::to_string( r.chance( 3, 4 ) ? n : r.below( n + 3 ) ) : freshName();
                     if ( r.chance( 1, 10 ) )
                     {
                        p += r.chance( 1, 2 ) ? "/zz" : "/0";
                     }
                     break;
                  }
                  case 4:
                     p = o[s].kids.empty() ? "17" : o[r.pick( o[s].kids )].name + "/" + ( r.chance( 1, 2 ) ? freshName() : std::to_string( r.below( 3 ) ) );
                     break;
                  default:
                     p = r.pick( { string( "/" ), string( "nowhere/a" ), string( "/nowhere/0" ), string( "3" ), string( "/a/b/c/d" ) } );
               }
               set_( s, p, candidate( o[s].file ) );
               break;
            }
            case 4:
            case 5:
            {
               const int v = pick( []( const Obj &x ) { return x.type == T::Vector; } );
               if ( v < 0 || protoOf( v ) || ( o[v].user >= 0 && !o[v].attached ) )
               {
                  break;
               }
               int n = candidate( o[v].file );
               // something alike the first child
               if ( !o[v].kids.empty() && r.chance( 1, 2 ) )
               {
                  near = r.chance( 1, 3 );
                  n = copy( o[v].kids[0] );
                  if ( near != 0 && !o[v].hetero )
                  {
                     mon::count( "almost alike elements", near == 2 );
                  }
                  near = 0;
               }
               append_( v, n );
               // names of two and three digits
               if ( !o[v].kids.empty() && o.size() < 100 && r.chance( 1, 40 ) && o[o[v].kids[0]].kids.empty() )
               {
                  for ( size_t k = 90 + r.below( 40 ); k > 0; k-- )
                  {
                     append_( v, copy( o[v].kids[0] ) );
                  }
                  mon::count( "long vectors" );
               }
               break;
            }
            case 6:
            {
               const int f = int( r.below( 2 ) );
               int p = -1, q = -1;
               if ( r.chance( 1, 4 ) )
               {
                  p = pick( []( const Obj &x ) { return x.type == T::Structure && ( x.user < 0 || x.attached ); } );
               }
               if ( r.chance( 1, 6 ) )
               {
                  q = pick( []( const Obj &x ) { return x.type == T::Vector && x.hetero && ( x.user < 0 || x.attached ); } );
               }
               if ( p < 0 )
               {
                  p = structure( f );
                  set_( p, "a", leafField( f ) );
                  if ( r.chance( 1, 2 ) )
                  {
                     set_( p, "b", leafField( f ) );
                  }
               }
               // prototypes without what they may not contain
               if ( has( p, T::Blob ) || has( p, T::CompressedVector ) || p == q )
               {
                  break;
               }
               if ( q < 0 )
               {
                  q = vec( o[p].file, true );
               }
               if ( has( q, T::CompressedVector ) || has( q, T::Blob ) )
               {
                  break;
               }
               records( r.chance( 1, 8 ) ? 1 - o[p].file : o[p].file, p, q );
               break;
            }
            default:
               inspect( int( r.below( o.size() ) ) );
         }
      }
      // part of a tree which describes records
      bool protoOf( int i ) const
      {
         const int t = top( i );
         return o[t].user >= 0;
      }
      int leafField( int f )
      {
         int n = leaf( f );
         while ( o[n].type == T::Blob )
         {
            n = leaf( f );
         }
         return n;
      }
      // an element alike another one, its parts in another order; or almost alike, one detail of one of its parts being different
      unsigned near = 0; // 1: a detail is to be changed, 2: it was
      bool spoil()
      {
         const bool yes = near == 1 && r.chance( 1, 2 );
         near = yes ? 2 : near;
         return yes;
      }
      int copy( int i )
      {
         Obj x = o[i];
         const bool leaf = x.type == T::Integer || x.type == T::Scaled || x.type == T::Float || x.type == T::Blob;
         if ( leaf && spoil() )
         {
            switch ( x.type )
            {
               case T::Integer:
                  ( r.chance( 1, 2 ) ? x.imin : x.imax ) += x.imin == x.imax ? 0 : 1;
                  x.imax += x.imin == x.imax && x.imax < 1000 ? 1 : 0;
                  x.imin = std::min( x.imin, x.imax );
                  break;
               case T::Scaled:
                  switch ( r.below( 4 ) )
                  {
                     case 0:
                        x.imin -= x.imin > -1000000000 ? 1 : 0;
                        break;
                     case 1:
                        x.imax += x.imax < 1000000000 ? 1 : 0;
                        break;
                     case 2:
                        x.scale *= 2;
                        break;
                     default:
                        x.offset += 1;
                  }
                  break;
               case T::Float:
                  switch ( r.below( 3 ) )
                  {
                     case 0:
                        x.fmin -= 1;
                        break;
                     case 1:
                        x.fmax += 1;
                        break;
                     default:
                        x.single = !x.single;
                  }
                  break;
               default:
                  x.length += 1;
            }
         }
         const ImageFile &imf = files[x.file];
         switch ( x.type )
         {
            case T::Integer:
            {
               Obj y( e57::IntegerNode( imf, x.imin, x.imin, x.imax ), x.type, x.file );
               y.imin = x.imin;
               y.imax = x.imax;
               y.iv = x.imin;
               return add( y );
            }
            case T::Scaled:
            {
               Obj y( e57::ScaledIntegerNode( imf, x.imax, x.imin, x.imax, x.scale, x.offset ), x.type, x.file );
               y.imin = x.imin;
               y.imax = x.imax;
               y.iv = x.imax;
               y.scale = x.scale;
               y.offset = x.offset;
               return add( y );
            }
            case T::Float:
            {
               Obj y( e57::FloatNode( imf, 0.25, x.single ? e57::PrecisionSingle : e57::PrecisionDouble, x.fmin, x.fmax ), x.type, x.file );
               y.single = x.single;
               y.fmin = x.fmin;
               y.fmax = x.fmax;
               y.fv = 0.25;
               return add( y );
            }
            case T::String:
            {
               Obj y( e57::StringNode( imf, "copy" ), x.type, x.file );
               y.sv = "copy";
               return add( y );
            }
            case T::Blob:
            {
               Obj y( e57::BlobNode( imf, x.length ), x.type, x.file );
               y.length = x.length;
               return add( y );
            }
            case T::CompressedVector:
            {
               const int p = copy( x.proto ), q = copy( x.codecs );
               const size_t before = o.size();
               records( x.file, p, q );
               return int( before );
            }
            case T::Vector:
            {
               const int v = vec( x.file, x.hetero != ( !x.hetero && spoil() ) );
               for ( int k : x.kids )
               {
                  append_( v, copy( k ) );
               }
               return v;
            }
            default:
            {
               const int s = structure( x.file );
               vector<int> kids = x.kids;
               if ( r.chance( 1, 2 ) )
               {
                  std::reverse( kids.begin(), kids.end() );
               }
               for ( int k : kids )
               {
                  set_( s, o[k].name, copy( k ) );
               }
               return s;
            }
         }
      }
      // the file read again holds the tree
      void compare( const e57::Node &n, int i, const string &at )
      {
         const Obj &x = o[i];
         MON_CHECK( n.pathName() == path( i ) && n.elementName() == x.name && n.isAttached(), "reopened-tree", at + ": " + n.pathName() );
         if ( x.type == T::Structure || x.type == T::Vector )
         {
            const bool s = x.type == T::Structure;
            MON_CHECK( n.type() == ( s ? e57::TypeStructure : e57::TypeVector ), "reopened-tree", at );
            const int64_t count = s ? e57::StructureNode( n ).childCount() : e57::VectorNode( n ).childCount();
            MON_CHECK( count == int64_t( x.kids.size() ), "reopened-tree", at + fmt( " has %" PRId64 " children", count ) );
            for ( size_t k = 0; k < x.kids.size(); k++ )
            {
               compare( s ? e57::StructureNode( n ).get( int64_t( k ) ) : e57::VectorNode( n ).get( int64_t( k ) ), x.kids[k], at + "/" + o[x.kids[k]].name );
            }
         }
         mon::count( "elements compared after reopening" );
      }
   };
}

static void run( mon::Ctx &c )
{
   World w( c );
   Rng &r = c.rng;
   const string path[2] = { c.path( "a.e57" ), c.path( "b.e57" ) };
   for ( auto &p : path )
   {
      w.files.emplace_back( p, "w" );
      Obj root( w.files.back().root(), T::Structure, int( w.files.size() ) - 1 );
      root.root = root.attached = true;
      w.add( root );
   }
   const unsigned steps = 10 + unsigned( r.below( 60 ) );
   for ( unsigned k = 0; k < steps && w.o.size() < 250; k++ )
   {
      w.step();
      if ( r.chance( 1, 12 ) )
      {
         w.inspectAll();
      }
   }
   w.inspectAll();
   for ( int f = 0; f < 2; f++ )
   {
      w.files[f].root().checkInvariant( true );
      w.files[f].close();
   }
   for ( int f = 0; f < 2; f++ )
   {
      ImageFile imf( path[f], "r" );
      w.compare( imf.root(), f, "" );
      // nothing can be changed here
      for ( unsigned k = 0; k < 10; k++ )
      {
         const int i = k == 0 ? f : int( r.below( w.o.size() ) );
         if ( w.top( i ) != f || !w.box( i ) )
         {
            continue;
         }
         e57::Node n = imf.root().get( w.path( i ) );
         const auto a = mon::attempt( [&] {
            e57::StringNode s( imf, "x" );
            w.o[i].type == T::Structure ? e57::StructureNode( n ).set( "new", s ) : e57::VectorNode( n ).append( s );
         } );
         MON_CHECK( a.threw && a.code == e57::ErrorFileReadOnly, "changed-in-read-mode", a.str() );
         mon::count( "changes refused in read mode" );
      }
      w.compare( imf.root(), f, "" );
      imf.root().checkInvariant( true );
      imf.close();
   }
   mon::distinct( "case", fmt( "%zu:%016" PRIx64, w.o.size(), mon::fnv( mon::slurp( path[0] ) + mon::slurp( path[1] ) ) ) );
   mon::sample( fmt( "%u operations on %zu elements; first file: %" PRId64 " children of the root", steps, w.o.size(), int64_t( w.o[0].kids.size() ) ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C11";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
