// C02: the metadata tree written to a file is read back unchanged.
#include "api.h"
using namespace api;

static void buildAll( ImageFile imf, const Node &root, Rng &r )
{
   Builder b( imf, r );
   b.populate( imf.root(), root );
   b.writeBlobs();
   for ( auto &p : b.cvs )
   {
      e57::CompressedVectorNode cv( p.node );
      if ( !p.m->unwritten )
      {
         writeRecords( imf, cv, *p.m, r );
      }
   }
}
static size_t countNodes( const Node &n )
{
   size_t c = 1;
   for ( auto &k : n.kids )
   {
      c += countNodes( k );
   }
   if ( n.proto )
   {
      c += countNodes( *n.proto ) + countNodes( *n.codecs );
   }
   return c;
}
static string shapeOf( const Node &n )
{
   string s( 1, "SVCisftB"[int( n.type )] );
   if ( n.type == T::Float )
   {
      s += n.single ? '4' : '8';
   }
   if ( n.kids.empty() )
   {
      return s;
   }
   s += '(';
   for ( auto &k : n.kids )
   {
      s += shapeOf( k );
   }
   return s + ')';
}
static void observe( const Node &n )
{
   mon::distinct( "element type", model::tname( n.type ) );
   if ( n.type == T::String )
   {
      mon::count( "string bytes", n.sv.size() );
   }
   for ( auto &k : n.kids )
   {
      observe( k );
   }
}
// a tree of one kind of awkward content, dense in the values that serialisation can get wrong
static Node dense( mon::Ctx &c, model::Gen &g, int kind )
{
   Rng &r = c.rng;
   Node root( T::Structure, "" );
   auto add = [&]( Node n ) {
      n.name = fmt( "n%zu", root.kids.size() );
      root.kids.push_back( n );
   };
   switch ( kind )
   {
      case 0: // floats from random bits, with bounds
         for ( int k = 0; k < 150; k++ )
         {
            Node n( T::Float );
            g.fillLeaf( n );
            add( n );
         }
         break;
      case 1: // integers
         for ( int k = 0; k < 150; k++ )
         {
            Node n( k % 2 ? T::Integer : T::Scaled );
            g.fillLeaf( n );
            add( n );
         }
         break;
      case 2: // strings
         for ( int k = 0; k < 60; k++ )
         {
            Node n( T::String );
            n.sv = g.text( k % 10 == 0 ? 5000 : 30 );
            add( n );
         }
         break;
      case 3: // long homogeneous and heterogeneous vectors
      {
         Node v( T::Vector );
         v.hetero = r.chance( 1, 2 );
         Node proto = g.leafNode( "" );
         const size_t n = 200 + r.below( 1000 );
         for ( size_t k = 0; k < n; k++ )
         {
            if ( v.hetero )
            {
               v.kids.push_back( g.leafNode( "" ) );
               v.kids.back().sv = v.kids.back().sv.substr( 0, 0 );
            }
            else
            {
               g.revalue( proto );
               v.kids.push_back( proto );
            }
         }
         add( v );
         break;
      }
      case 4: // deep nesting
      {
         Node inner = g.leafNode( "x" );
         const size_t n = 20 + r.below( 180 );
         for ( size_t k = 0; k < n; k++ )
         {
            Node o( r.chance( 1, 2 ) ? T::Structure : T::Vector, "d" );
            o.hetero = o.type == T::Vector && r.chance( 1, 2 );
            if ( o.type == T::Structure && r.chance( 1, 3 ) )
            {
               o.kids.push_back( g.leafNode( "s" ) );
            }
            inner.name = o.type == T::Vector ? "" : "d";
            o.kids.push_back( inner );
            inner = o;
         }
         add( inner );
         break;
      }
      case 5: // one very long string, whitespace of all kinds
      {
         Node n( T::String );
         const size_t len = r.chance( 1, 5 ) ? 30001 + r.below( 400000 ) : 30001;
         while ( n.sv.size() < len )
         {
            n.sv += g.text( 2000 );
         }
         add( n );
         Node w( T::String );
         for ( int k = 0; k < 20; k++ )
         {
            w.sv += r.pick( vector<string>{ " ", "\n", "\t", "\r", "\r\n" } );
         }
         add( w );
         break;
      }
      case 6: // many children by name
      {
         Node s( T::Structure );
         const size_t n = 250 + r.below( 600 );
         for ( size_t k = 0; k < n; k++ )
         {
            Node i( T::Integer, fmt( "c%zu", k ) );
            g.fillLeaf( i );
            s.kids.push_back( i );
         }
         add( s );
         break;
      }
      default: // large integers next to text-like things in many structures
         for ( int k = 0; k < 40; k++ )
         {
            Node s( T::Structure );
            for ( int j = 0; j < 8; j++ )
            {
               s.kids.push_back( g.leafNode( fmt( "f%d", j ) ) );
            }
            add( s );
         }
   }
   return root;
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   model::Gen::TreeOpts o;
   auto ext = g.extensions( r.chance( 1, 3 ) ? 12 : 3 );
   for ( auto &x : ext )
   {
      o.prefixes.push_back( x.first );
   }
   o.budget = r.chance( 1, 10 ) ? 300 : 40;
   o.depth = r.chance( 1, 10 ) ? 20 : 5;
   o.maxBlob = 200;
   o.maxRecords = 10;
   const Node root = c.caseNo % 3 == 0 ? dense( c, g, int( r.below( 8 ) ) ) : g.tree( o );
   observe( root );
   const string path = c.path( "c02.e57" );
   {
      ImageFile imf( path, "w" );
      for ( auto &x : ext )
      {
         imf.extensionsAdd( x.first, x.second );
      }
      buildAll( imf, root, r );
      // what has been built is what is meant
      string d = model::diff( root, describe( imf.root() ) );
      MON_CHECK( d.empty(), "built-tree-differs", d );
      imf.close();
   }
   ImageFile imf( path, "r", r.chance( 1, 2 ) ? e57::ChecksumPolicy::ChecksumAll : e57::ChecksumPolicy::ChecksumNone );
   const Node back = describe( imf.root() );
   string d = model::diff( root, back );
   MON_CHECK( d.empty(), "reopened-tree-differs", d );
   mon::count( "elements compared", countNodes( root ) );
   // extensions: the default namespace may be listed too
   map<string, string> want, got;
   for ( auto &x : ext )
   {
      want[x.first] = x.second;
   }
   for ( size_t k = 0; k < imf.extensionsCount(); k++ )
   {
      MON_CHECK( !got.count( imf.extensionsPrefix( k ) ), "extension-twice", imf.extensionsPrefix( k ) );
      got[imf.extensionsPrefix( k )] = imf.extensionsUri( k );
   }
   MON_CHECK( got.count( "" ) == 0 || got[""] == "http://www.astm.org/COMMIT/E57/2010-e57-v1.0", "default-namespace", got[""] );
   got.erase( "" );
   for ( auto &x : want )
   {
      MON_CHECK( got.count( x.first ), "extension-lost", x.first );
      MON_CHECK( got[x.first] == x.second, "extension-uri-changed", x.second + " became " + got[x.first] );
      mon::count( "extensions compared" );
   }
   MON_CHECK( got.size() == want.size(), "extension-invented", fmt( "%zu vs %zu", got.size(), want.size() ) );
   imf.close();
   mon::distinct( "case", shapeOf( root ).substr( 0, 200 ) );
   mon::sample( fmt( "case %ld: %zu elements %s", c.caseNo, countNodes( root ), shapeOf( root ).substr( 0, 100 ).c_str() ) );
}

// two compressed vectors of one homogeneous vector, given different numbers of records
static void unequalRecords( mon::Ctx &c )
{
   const string path = c.path( "c02p.e57" );
   {
      ImageFile imf( path, "w" );
      e57::VectorNode v( imf, false );
      imf.root().set( "v", v );
      for ( int k = 0; k < 2; k++ )
      {
         e57::StructureNode p( imf );
         p.set( "x", e57::IntegerNode( imf, 0, 0, 100 ) );
         v.append( e57::CompressedVectorNode( imf, p, e57::VectorNode( imf, true ) ) );
      }
      for ( int k = 0; k < 2; k++ )
      {
         int64_t x[3] = { 1, 2, 3 };
         vector<e57::SourceDestBuffer> b{ e57::SourceDestBuffer( imf, "x", x, 3 ) };
         auto w = e57::CompressedVectorNode( v.get( k ) ).writer( b );
         w.write( k == 0 ? 2 : 3 );
         w.close();
      }
      imf.close();
   }
   auto o = mon::attempt( [&] {
      ImageFile imf( path, "r" );
      imf.close();
   } );
   MON_CHECK( !o.threw, "closed-file-refused", o.str() );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C02";
   s.run = run;
   s.probes["unequal-record-counts"] = unequalRecords;
   return mon::mainLoop( argc, argv, s );
}
