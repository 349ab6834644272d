From 03ffc7164ce0501f2dbca25ea041260ced0ef6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:24 +0000
Subject: [PATCH 01/56] fix: avoid signed overflow when computing integer field
 widths and offsets

Fields whose range spans more than 2^63 values, such as the default range of
an integer element, made bitsNeeded() and the integer encoder subtract signed
64-bit values with overflow, which is undefined behaviour.
---
 src/Encoder.cpp       | 3 ++-
 src/ImageFileImpl.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..21f0a86 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -746,7 +746,8 @@ uint64_t BitpackIntegerEncoder<RegisterT>::processRecords( size_t recordCount )
                                                          " maximum=" + toString( maximum_ ) );
       }
 
-      auto uValue = static_cast<uint64_t>( rawValue - minimum_ );
+      uint64_t uValue =
+         static_cast<uint64_t>( rawValue ) - static_cast<uint64_t>( minimum_ );
 
 #ifdef E57_VERBOSE
       std::cout << "encoding integer rawValue=" << binaryString( rawValue ) << " = "
diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..c78b63e 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -786,7 +786,8 @@ namespace e57
       // position of the first 1 (from left) in the binary form of stateCountMinus1.
       //??? move to E57Utility?
 
-      uint64_t stateCountMinus1 = maximum - minimum;
+      uint64_t stateCountMinus1 =
+         static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum );
 
       unsigned log2 = 0;
 
-- 
2.43.0


From 7291abbe654a7f299d39f917c5a9e742f0b4db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:24 +0000
Subject: [PATCH 02/56] fix: stop decoding strings when the destination buffer
 is full

Reading a string field in pieces smaller than the number of records in a
packet failed with an internal error, because the string decoder ignored the
capacity of the destination buffer.
---
 src/Decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..b79296b 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -512,9 +512,10 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
    size_t nBytesAvailable = ( endBit - firstBit ) >> 3;
    size_t nBytesRead = 0;
 
-   // Loop until we've finished all the records, or ran out of input currently
-   // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   // Loop until we've finished all the records, filled the destBuffer, or ran out of input
+   // currently available
+   while ( currentRecordIndex_ < maxRecordCount_ &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() && nBytesRead < nBytesAvailable )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From 4abee96dc24307e78a9652ad8e5c2738ea3b5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:24 +0000
Subject: [PATCH 03/56] fix: apply scale and offset when writing constant
 scaled integer fields

A scaled integer field whose minimum equals its maximum compared the
unconverted source value with the raw minimum, so correct scaled values were
refused with ErrorValueOutOfBounds.
---
 src/Encoder.cpp | 16 ++++++++++------
 src/Encoder.h   |  7 ++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index 21f0a86..69274b5 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,7 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( false, bytestreamNumber, sbuf, ini->minimum(), 1.0, 0.0 ) );
 
             return encoder;
          }
@@ -138,7 +138,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+               new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),
+                                           sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -894,10 +895,11 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 
 //================================================================
 
-ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+ConstantIntegerEncoder::ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                                                SourceDestBuffer &sbuf, int64_t minimum,
+                                                double scale, double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   isScaledInteger_( isScaledInteger ), minimum_( minimum ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -912,7 +914,9 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      // The parameter isScaledInteger_ determines which version of getNextInt64 gets called
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..9f2ece6 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,9 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                              SourceDestBuffer &sbuf, int64_t minimum, double scale,
+                              double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -198,6 +200,9 @@ namespace e57
    protected:
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
+      bool isScaledInteger_;
       int64_t minimum_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From 3481216ec1f366bc470938a4c37cfd835448f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:39 +0000
Subject: [PATCH 04/56] fix: store true for non-zero values in bool destination
 buffers

Reading a numeric field into a bool buffer delivered the inverted value.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..ee779e2 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -238,7 +238,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -781,7 +781,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -908,7 +908,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
-- 
2.43.0


From 7dfb7cd5a599ef88cd42851eb30c470f7ae7f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:46 +0000
Subject: [PATCH 05/56] fix: always write a data packet the reader can use

A compressed vector section without any stored bytes had no data packet at
all, or a header-only one after write( 0 ). Such sections could not be read
back when they had records with only constant fields, or when write( 0 ) was
mixed with other writes. Write the placeholder packet once, when closing a
section that has no other data packet, and list the bytestreams in it if
there are records.
---
 src/CompressedVectorWriterImpl.cpp | 26 +++++++++++++++++++++++---
 src/CompressedVectorWriterImpl.h   |  2 +-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..3ef69a8 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -25,6 +25,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <numeric>
 
@@ -183,6 +184,12 @@ namespace e57
          flush();
       }
 
+      // A section needs a data packet, even if there are no records or no field needs any bytes.
+      if ( dataPacketsCount_ == 0 )
+      {
+         packetWriteNoData();
+      }
+
       // Write one index packet (required by standard).
       packetWriteIndex();
 
@@ -292,7 +299,6 @@ namespace e57
 
       if ( requestedRecordCount == 0 )
       {
-         packetWriteZeroRecords();
          return;
       }
 
@@ -617,8 +623,9 @@ namespace e57
    }
 
    // If we don't have any records, write a packet which is only the header + zero padding.
+   // If we have records, but all their fields are constant, all the bytestream lengths are zero.
    // Code is a simplified version of packetWrite().
-   void CompressedVectorWriterImpl::packetWriteZeroRecords()
+   void CompressedVectorWriterImpl::packetWriteNoData()
    {
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
 
@@ -629,8 +636,21 @@ namespace e57
 
       auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) );
 
-      // packetLength must be multiple of 4, add zero padding
       auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
+
+      if ( recordCount_ > 0 )
+      {
+         const auto cLengthBytes =
+            static_cast<unsigned int>( bytestreams_.size() * sizeof( uint16_t ) );
+
+         dataPacket_.header.bytestreamCount = static_cast<uint16_t>( bytestreams_.size() );
+
+         std::fill_n( data, cLengthBytes, '\0' );
+         data += cLengthBytes;
+         packetLength += cLengthBytes;
+      }
+
+      // packetLength must be multiple of 4, add zero padding
       while ( packetLength % 4 )
       {
          *data++ = 0;
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index 5596267..6e20ace 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -57,7 +57,7 @@ namespace e57
       size_t totalOutputAvailable() const;
       size_t currentPacketSize() const;
       uint64_t packetWrite();
-      void packetWriteZeroRecords();
+      void packetWriteNoData();
       void packetWriteIndex();
 
       void flush();
-- 
2.43.0


From e0d5fabfef51bbc7b7a1b033bb3e318e0fe3ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:02 +0000
Subject: [PATCH 06/56] fix: allow the last byte of a full data packet to be
 padding

A packet with 65535 bytes of contents needs one padding byte, which still
fits. Writing a string field with strings larger than a packet failed with
ErrorInternal because of this.
---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 3ef69a8..1059f49 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -571,7 +571,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From 94593612dfdba4536dfb7e1da838077df1400902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:08 +0000
Subject: [PATCH 07/56] fix: keep carriage returns in string values

XML parsers replace a literal carriage return with a line feed, so a
string containing one came back changed. Write it as a character
reference.
---
 src/StringNodeImpl.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 8a2fd29..0926073 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -31,6 +31,26 @@
 
 namespace e57
 {
+   namespace
+   {
+      /// Write text inside a CDATA section. XML parsers turn a carriage return into a line feed
+      /// unless it is a character reference, which can't be inside the CDATA.
+      void writeCDataText( CheckedFile &cf, const ustring &text )
+      {
+         size_t start = 0;
+         size_t found = text.find( '\r' );
+
+         while ( found != std::string::npos )
+         {
+            cf << text.substr( start, found - start ) << "]]>&#13;<![CDATA[";
+            start = found + 1;
+            found = text.find( '\r', start );
+         }
+
+         cf << text.substr( start );
+      }
+   }
+
    StringNodeImpl::StringNodeImpl( ImageFileImplWeakPtr destImageFile, const ustring &value ) :
       NodeImpl( destImageFile ), value_( value )
    {
@@ -116,13 +136,13 @@ namespace e57
             if ( found == std::string::npos )
             {
                // Didn't find any more "]]>", so can send the rest.
-               cf << value_.substr( currentPosition );
+               writeCDataText( cf, value_.substr( currentPosition ) );
                break;
             }
 
             // Must output in two pieces, first send up to end of "]]"  (don't send the following
             // ">").
-            cf << value_.substr( currentPosition, found - currentPosition + 2 );
+            writeCDataText( cf, value_.substr( currentPosition, found - currentPosition + 2 ) );
 
             // Then start a new CDATA
             cf << "]]><![CDATA[";
-- 
2.43.0


From 4b7b51910a25677f008b38a15ac8e1607cc50453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:44 +0000
Subject: [PATCH 08/56] fix: escape extension URIs when writing the XML section

A URI containing an ampersand, a quote or a less-than sign made the
closed file unreadable.
---
 src/StructureNodeImpl.cpp | 41 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..a905fd1 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -34,6 +34,45 @@
 
 using namespace e57;
 
+namespace
+{
+   /// Escape the characters which can't be used literally in an XML attribute value
+   ustring escapeAttribute( const ustring &value )
+   {
+      ustring escaped;
+
+      for ( const char c : value )
+      {
+         switch ( c )
+         {
+            case '&':
+               escaped += "&amp;";
+               break;
+            case '<':
+               escaped += "&lt;";
+               break;
+            case '"':
+               escaped += "&quot;";
+               break;
+            case '\t':
+               escaped += "&#9;";
+               break;
+            case '\n':
+               escaped += "&#10;";
+               break;
+            case '\r':
+               escaped += "&#13;";
+               break;
+            default:
+               escaped += c;
+               break;
+         }
+      }
+
+      return escaped;
+   }
+}
+
 StructureNodeImpl::StructureNodeImpl( ImageFileImplWeakPtr destImageFile ) :
    NodeImpl( destImageFile )
 {
@@ -420,7 +459,7 @@ void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, i
 
          cf << "\n"
             << space( numSpaces ) << xmlnsExtension << imf->extensionsPrefix( index ) << "=\""
-            << imf->extensionsUri( index ) << "\"";
+            << escapeAttribute( imf->extensionsUri( index ) ) << "\"";
       }
 
       // If user didn't explicitly declare a default namespace, use the current E57 standard one.
-- 
2.43.0


From 5facf30789e183ee53aedf03d63cc351f7ff68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:03 +0000
Subject: [PATCH 09/56] fix: write single precision values so that they are
 read back unchanged

Eight significant digits do not identify every single precision value,
and the rounded text could lie outside the declared bounds so that the
file could not be opened any more.
---
 src/CheckedFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..7c1988c 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -478,8 +478,9 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // The value is read back as a double, so write enough digits to get exactly this one. With fewer,
+   // the value might be changed or be outside its bounds when read.
+   return writeFloatingPoint( static_cast<double>( f ), 17 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
-- 
2.43.0


From fb92abb9f23f6fa391b9b5c5134c077b21cc4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:13 +0000
Subject: [PATCH 10/56] fix: transfer through newly designated buffers

CompressedVectorReader::read( dbufs ) and CompressedVectorWriter::write( sbufs, n )
checked the new buffers but kept transferring through the old ones.
---
 src/CompressedVectorReaderImpl.cpp |  9 +++++++++
 src/CompressedVectorWriterImpl.cpp | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..4c31cd0 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -220,6 +220,15 @@ namespace e57
       }
 
       dbufs_ = dbufs;
+
+      // Direct the decoders of an already open reader to the new buffers
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf{ dbufs_[i] };
+
+         channels_[i].dbuf = dbufs_[i];
+         channels_[i].decoder->destBufferSetNew( theDbuf );
+      }
    }
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 1059f49..c643598 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -277,6 +277,16 @@ namespace e57
       proto_->checkBuffers( sbufs, false );
 
       sbufs_ = sbufs;
+
+      // Direct the encoders of an already open writer to the new buffers
+      for ( size_t i = 0; i < sbufs_.size() && !bytestreams_.empty(); ++i )
+      {
+         std::vector<SourceDestBuffer> theSbuf{ sbufs_[i] };
+         uint64_t bytestreamNumber = 0;
+
+         proto_->findTerminalPosition( proto_->get( sbufs_[i].pathName() ), bytestreamNumber );
+         bytestreams_.at( bytestreamNumber )->sourceBufferSetNew( theSbuf );
+      }
    }
 
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
-- 
2.43.0


From af40182b1ee8857ca780f9e17aa3a879a8e1b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:04 +0000
Subject: [PATCH 11/56] fix: refuse blob transfers and sizes that wrap around

Negative offsets, negative sizes and counts close to the largest integer
passed the range check, so bytes outside the blob were read or overwritten.
---
 src/BlobNodeImpl.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..13c9abe 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -40,6 +40,11 @@ namespace e57
 
       ImageFileImplSharedPtr imf( destImageFile );
 
+      if ( byteCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "byteCount=" + toString( byteCount ) );
+      }
+
       // This what caller thinks blob length is
       blobLogicalLength_ = byteCount;
 
@@ -123,10 +128,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( ( start < 0 ) || ( count > blobLogicalLength_ ) ||
+           ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -142,7 +146,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -156,7 +159,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( ( start < 0 ) || ( count > blobLogicalLength_ ) ||
+           ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 39f86e255debb4acbbd86e41a3c94c8cfb5efed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:52 +0000
Subject: [PATCH 12/56] fix: count a reader or writer out only once

Closing a CompressedVectorReader or CompressedVectorWriter a second time is
documented not to be an error, but each call decremented the ImageFile's
reader or writer count again.
---
 src/CompressedVectorReaderImpl.cpp | 5 ++++-
 src/CompressedVectorWriterImpl.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 4c31cd0..76befc3 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -576,7 +576,10 @@ namespace e57
    {
       // Before anything that can throw, decrement reader count
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
+      if ( isOpen_ )
+      {
+         imf->decrReaderCount();
+      }
 
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index c643598..8e8902f 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -159,7 +159,10 @@ namespace e57
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
 
       // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
+      if ( isOpen_ )
+      {
+         imf->decrWriterCount();
+      }
 
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
-- 
2.43.0


From 0ba417ca3ffc0194731618f35fea5f1cbc444a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:21 +0000
Subject: [PATCH 13/56] fix: report use of a node after its ImageFile is gone

When the last ImageFile handle had been destroyed, calls on a node that was
still held let std::bad_weak_ptr escape instead of ErrorImageFileNotOpen.
---
 src/NodeImpl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..9925500 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -45,10 +45,10 @@ void NodeImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                    const char *srcFunctionName ) const
 {
    // Throw an exception if destImageFile (destImageFile_) isn't open
-   ImageFileImplSharedPtr destImageFile( destImageFile_ );
-   if ( !destImageFile->isOpen() )
+   ImageFileImplSharedPtr destImageFile( destImageFile_.lock() );
+   if ( !destImageFile || !destImageFile->isOpen() )
    {
-      throw E57Exception( ErrorImageFileNotOpen, "fileName=" + destImageFile->fileName(),
+      throw E57Exception( ErrorImageFileNotOpen, "fileName=" + imageFileName(),
                           srcFileName, srcLineNumber, srcFunctionName );
    }
 }
@@ -150,9 +150,9 @@ void NodeImpl::setAttachedRecursive()
 ustring NodeImpl::imageFileName() const
 {
    // don't checkImageFileOpen
-   ImageFileImplSharedPtr imf( destImageFile_ );
+   ImageFileImplSharedPtr imf( destImageFile_.lock() );
 
-   return imf->fileName();
+   return imf ? imf->fileName() : ustring();
 }
 
 void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
-- 
2.43.0


From e8e934a9cfa0af737bb3104ccb8169f487e3c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:21 +0000
Subject: [PATCH 14/56] fix: refuse readers and writers of a closed ImageFile

The check was not implemented, so using or closing a CompressedVectorReader or
CompressedVectorWriter after its ImageFile had been closed used the freed file
object. It now throws the documented ErrorImageFileNotOpen.
---
 src/CompressedVectorReaderImpl.cpp | 14 ++++++--------
 src/CompressedVectorWriterImpl.cpp | 13 ++++++-------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 76befc3..6a837e8 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -575,14 +575,12 @@ namespace e57
    void CompressedVectorReaderImpl::close()
    {
       // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      if ( isOpen_ )
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_.lock() );
+      if ( isOpen_ && imf )
       {
          imf->decrReaderCount();
       }
 
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-
       // No error if reader not open
       if ( !isOpen_ )
       {
@@ -596,15 +594,15 @@ namespace e57
       cache_ = nullptr;
 
       isOpen_ = false;
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
    }
 
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      // The nodes know whether the file they belong to is open
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 8e8902f..c2f1217 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -156,15 +156,14 @@ namespace e57
 #ifdef E57_VERBOSE
       std::cout << "CompressedVectorWriterImpl::close() called" << std::endl; //???
 #endif
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_.lock() );
 
       // Before anything that can throw, decrement writer count
-      if ( isOpen_ )
+      if ( isOpen_ && imf )
       {
          imf->decrWriterCount();
       }
 
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
       if ( !isOpen_ )
@@ -176,6 +175,8 @@ namespace e57
       // try to close again.
       isOpen_ = false;
 
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
@@ -730,10 +731,8 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      // The nodes know whether the file they belong to is open
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
-- 
2.43.0


From 82f45f5cd87e3ac65c03ec8503712bcdb744ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:21 +0000
Subject: [PATCH 15/56] fix: refuse to write the records of a
 CompressedVectorNode twice

A second writer replaced the records already written instead of failing with
the documented ErrorSetTwice.
---
 src/CompressedVectorNodeImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 63ae31c..7f98aab 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -299,6 +299,12 @@ namespace e57
          throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + destImageFile->fileName() );
       }
 
+      // Records can only be written once
+      if ( recordCount_ > 0 )
+      {
+         throw E57_EXCEPTION2( ErrorSetTwice, "fileName=" + destImageFile->fileName() );
+      }
+
       if ( !isAttached() )
       {
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
-- 
2.43.0


From 0e34fa4a092e4bca0f7bc76fd68f4aa4b6abe038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:00 +0000
Subject: [PATCH 16/56] fix: discard the records of a failed
 CompressedVectorWriter::write

When a value was refused, some fields had already taken records which others
had not. The writer stayed open, so closing it stored a damaged section and
writing more could loop forever. As documented, the writer now can't be used
any further and the CompressedVectorNode has no records.
---
 src/CompressedVectorWriterImpl.cpp | 16 ++++++++++++++++
 src/CompressedVectorWriterImpl.h   |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index c2f1217..80e84a1 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -332,6 +332,22 @@ namespace e57
          sbuf.impl()->rewind();
       }
 
+      try
+      {
+         transferRecords( requestedRecordCount );
+      }
+      catch ( ... )
+      {
+         // The encoders may have stopped at different records, so the section can't be completed.
+         // Give up all records written so far.
+         isOpen_ = false;
+         ImageFileImplSharedPtr( cVector_->destImageFile_ )->decrWriterCount();
+         throw;
+      }
+   }
+
+   void CompressedVectorWriterImpl::transferRecords( const size_t requestedRecordCount )
+   {
       // Loop until all channels have completed requestedRecordCount transfers
       uint64_t endRecordIndex = recordCount_ + requestedRecordCount;
       while ( true )
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index 6e20ace..4beb653 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -54,6 +54,7 @@ namespace e57
       void checkWriterOpen( const char *srcFileName, int srcLineNumber,
                             const char *srcFunctionName ) const;
       void setBuffers( std::vector<SourceDestBuffer> &sbufs ); //???needed?
+      void transferRecords( size_t requestedRecordCount );
       size_t totalOutputAvailable() const;
       size_t currentPacketSize() const;
       uint64_t packetWrite();
-- 
2.43.0


From 4f6631008ec0e728032191d5806bc060729196df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:21 +0000
Subject: [PATCH 17/56] fix: free the packet cache when opening a
 CompressedVectorReader fails

A bad first packet made the constructor throw after the cache (2 MB) had been
allocated, and nothing released it.
---
 src/CompressedVectorReaderImpl.cpp | 6 ++----
 src/CompressedVectorReaderImpl.h   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 6a837e8..3abf089 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -132,8 +132,7 @@ namespace e57
       uint64_t dataLogicalOffset =
          imf->file_->physicalToLogical( sectionHeader.dataPhysicalOffset );
 
-      //??? what if fault in this constructor?
-      cache_ = new PacketReadCache( imf->file_, 32 );
+      cache_.reset( new PacketReadCache( imf->file_, 32 ) );
 
       // Verify that packet given by dataPhysicalOffset is actually a data packet,
       // init channels
@@ -590,8 +589,7 @@ namespace e57
       // Destroy decoders
       channels_.clear();
 
-      delete cache_;
-      cache_ = nullptr;
+      cache_.reset();
 
       isOpen_ = false;
 
diff --git a/src/CompressedVectorReaderImpl.h b/src/CompressedVectorReaderImpl.h
index 3064bc1..65aa8b8 100644
--- a/src/CompressedVectorReaderImpl.h
+++ b/src/CompressedVectorReaderImpl.h
@@ -70,7 +70,7 @@ namespace e57
       std::shared_ptr<CompressedVectorNodeImpl> cVector_;
       NodeImplSharedPtr proto_;
       std::vector<DecodeChannel> channels_;
-      PacketReadCache *cache_;
+      std::unique_ptr<PacketReadCache> cache_;
 
       uint64_t recordCount_; /// number of records written so far
       uint64_t maxRecordCount_;
-- 
2.43.0


From a66d8335a607fe580f5463ae6365b1798e08e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:03 +0000
Subject: [PATCH 18/56] fix: refuse NaN as the value of a FloatNode

A NaN compares neither below the minimum nor above the maximum, so it passed
the bounds check, and closing the file then failed an assertion or wrote a value
that can't be read.
---
 src/FloatNodeImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FloatNodeImpl.cpp b/src/FloatNodeImpl.cpp
index 0486354..907e875 100644
--- a/src/FloatNodeImpl.cpp
+++ b/src/FloatNodeImpl.cpp
@@ -54,7 +54,7 @@ namespace e57
    // Throw an exception if the value is not within bounds.
    void FloatNodeImpl::validateValue() const
    {
-      if ( value_ < minimum_ || value_ > maximum_ )
+      if ( !( value_ >= minimum_ && value_ <= maximum_ ) )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "this->pathName=" + this->pathName() +
                                                          " value=" + toString( value_ ) +
-- 
2.43.0


From d0c38263214fd2344b3b0288b6686b90f3f61c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:03 +0000
Subject: [PATCH 19/56] fix: refuse scaled values whose raw value doesn't fit
 64 bits

Constructing a ScaledIntegerNode from scaled values converted doubles outside
the range of int64_t, which is undefined and gave arbitrary values or bounds.
---
 src/ScaledIntegerNodeImpl.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ScaledIntegerNodeImpl.cpp b/src/ScaledIntegerNodeImpl.cpp
index 1c284b6..c3d4ad6 100644
--- a/src/ScaledIntegerNodeImpl.cpp
+++ b/src/ScaledIntegerNodeImpl.cpp
@@ -33,6 +33,19 @@
 
 namespace e57
 {
+   // Round to an integer. Throw an exception if the result can't be represented.
+   static int64_t _toRaw( double value )
+   {
+      value = std::floor( value + .5 );
+
+      if ( !( value >= -9223372036854775808.0 && value < 9223372036854775808.0 ) )
+      {
+         throw E57_EXCEPTION2( ErrorValueOutOfBounds, "rawValue=" + toString( value ) );
+      }
+
+      return static_cast<int64_t>( value );
+   }
+
    ScaledIntegerNodeImpl::ScaledIntegerNodeImpl( ImageFileImplWeakPtr destImageFile,
                                                  int64_t rawValue, int64_t minimum, int64_t maximum,
                                                  double scale, double offset ) :
@@ -46,9 +59,9 @@ namespace e57
                                                  double scaledMaximum, double scale,
                                                  double offset ) :
       NodeImpl( destImageFile ),
-      value_( static_cast<int64_t>( std::floor( ( scaledValue - offset ) / scale + .5 ) ) ),
-      minimum_( static_cast<int64_t>( std::floor( ( scaledMinimum - offset ) / scale + .5 ) ) ),
-      maximum_( static_cast<int64_t>( std::floor( ( scaledMaximum - offset ) / scale + .5 ) ) ),
+      value_( _toRaw( ( scaledValue - offset ) / scale ) ),
+      minimum_( _toRaw( ( scaledMinimum - offset ) / scale ) ),
+      maximum_( _toRaw( ( scaledMaximum - offset ) / scale ) ),
       scale_( scale ), offset_( offset )
    {
    }
-- 
2.43.0


From 70375d34280a261231f5cbcfab7b9ee3ea3d8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:18 +0000
Subject: [PATCH 20/56] fix: write scans whose value ranges don't include zero

---
 src/WriterImpl.cpp | 94 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 65 insertions(+), 29 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e6f4914..5ebea44 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -71,6 +71,18 @@ namespace
                .append( std::to_string( static_cast<int>( inNodeType ) ) );
       }
    }
+
+   /*!
+   @brief Choose the (unused) value of a prototype element with the given bounds.
+
+   @return 0 if it is within the bounds, otherwise the minimum.
+   */
+   template <typename T> T _protoValue( T inMinimum, T inMaximum )
+   {
+      const T zero = 0;
+
+      return ( ( inMinimum <= zero ) && ( zero <= inMaximum ) ) ? zero : inMinimum;
+   }
 }
 
 namespace e57
@@ -902,18 +914,21 @@ namespace e57
                const auto pointRangeMaximum = static_cast<int64_t>(
                   std::floor( ( pointRangeMax - pointRangeOffset ) / pointRangeScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, pointRangeMinimum, pointRangeMaximum,
-                                         pointRangeScale, pointRangeOffset );
+               return ScaledIntegerNode( imf_, _protoValue( pointRangeMinimum, pointRangeMaximum ),
+                                         pointRangeMinimum, pointRangeMaximum, pointRangeScale,
+                                         pointRangeOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _protoValue( pointRangeMin, pointRangeMax ),
+                                 PrecisionSingle, pointRangeMin, pointRangeMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _protoValue( pointRangeMin, pointRangeMax ),
+                                 PrecisionDouble, pointRangeMin, pointRangeMax );
             }
          }
 
@@ -969,18 +984,20 @@ namespace e57
                const auto angleMaximum = static_cast<int64_t>(
                   std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, angleMinimum, angleMaximum, angleScale,
-                                         angleOffset );
+               return ScaledIntegerNode( imf_, _protoValue( angleMinimum, angleMaximum ),
+                                         angleMinimum, angleMaximum, angleScale, angleOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, angleMin, angleMax );
+               return FloatNode( imf_, _protoValue( angleMin, angleMax ), PrecisionSingle, angleMin,
+                                 angleMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, angleMin, angleMax );
+               return FloatNode( imf_, _protoValue( angleMin, angleMax ), PrecisionDouble, angleMin,
+                                 angleMax );
             }
          }
 
@@ -1009,8 +1026,12 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "intensity", IntegerNode( imf_, 0, static_cast<int64_t>( intensityMin ),
-                                                    static_cast<int64_t>( intensityMax ) ) );
+               const auto integerMinimum = static_cast<int64_t>( intensityMin );
+               const auto integerMaximum = static_cast<int64_t>( intensityMax );
+
+               proto.set( "intensity",
+                          IntegerNode( imf_, _protoValue( integerMinimum, integerMaximum ),
+                                       integerMinimum, integerMaximum ) );
 
                break;
             }
@@ -1025,15 +1046,19 @@ namespace e57
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
 
-               proto.set( "intensity", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "intensity",
+                          ScaledIntegerNode( imf_,
+                                             _protoValue( rawIntegerMinimum, rawIntegerMaximum ),
+                                             rawIntegerMinimum, rawIntegerMaximum, scale,
+                                             offset ) );
 
                break;
             }
 
             case NumericalNodeType::Float:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionSingle,
+               proto.set( "intensity", FloatNode( imf_, _protoValue( intensityMin, intensityMax ),
+                                                  PrecisionSingle,
                                                   data3DHeader.intensityLimits.intensityMinimum,
                                                   data3DHeader.intensityLimits.intensityMaximum ) );
 
@@ -1042,7 +1067,8 @@ namespace e57
 
             case NumericalNodeType::Double:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionDouble,
+               proto.set( "intensity", FloatNode( imf_, _protoValue( intensityMin, intensityMax ),
+                                                  PrecisionDouble,
                                                   data3DHeader.intensityLimits.intensityMinimum,
                                                   data3DHeader.intensityLimits.intensityMaximum ) );
 
@@ -1053,24 +1079,27 @@ namespace e57
 
       if ( data3DHeader.pointFields.colorRedField )
       {
-         proto.set(
-            "colorRed",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum ) ) );
+         const auto minimum = static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum );
+         const auto maximum = static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum );
+
+         proto.set( "colorRed",
+                    IntegerNode( imf_, _protoValue( minimum, maximum ), minimum, maximum ) );
       }
       if ( data3DHeader.pointFields.colorGreenField )
       {
+         const auto minimum = static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum );
+         const auto maximum = static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum );
+
          proto.set( "colorGreen",
-                    IntegerNode(
-                       imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum ),
-                       static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum ) ) );
+                    IntegerNode( imf_, _protoValue( minimum, maximum ), minimum, maximum ) );
       }
       if ( data3DHeader.pointFields.colorBlueField )
       {
-         proto.set(
-            "colorBlue",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum ) ) );
+         const auto minimum = static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum );
+         const auto maximum = static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum );
+
+         proto.set( "colorBlue",
+                    IntegerNode( imf_, _protoValue( minimum, maximum ), minimum, maximum ) );
       }
 
       if ( data3DHeader.pointFields.returnIndexField )
@@ -1104,8 +1133,12 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "timeStamp", IntegerNode( imf_, 0, static_cast<int64_t>( timeMinimum ),
-                                                    static_cast<int64_t>( timeMaximum ) ) );
+               const auto integerMinimum = static_cast<int64_t>( timeMinimum );
+               const auto integerMaximum = static_cast<int64_t>( timeMaximum );
+
+               proto.set( "timeStamp",
+                          IntegerNode( imf_, _protoValue( integerMinimum, integerMaximum ),
+                                       integerMinimum, integerMaximum ) );
                break;
             }
 
@@ -1119,8 +1152,11 @@ namespace e57
                const auto rawIntegerMaximum =
                   static_cast<int64_t>( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
 
-               proto.set( "timeStamp", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "timeStamp",
+                          ScaledIntegerNode( imf_,
+                                             _protoValue( rawIntegerMinimum, rawIntegerMaximum ),
+                                             rawIntegerMinimum, rawIntegerMaximum, scale,
+                                             offset ) );
                break;
             }
 
-- 
2.43.0


From f1fc9cfb2cf8bd79649d429ce49df0b11f445f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:18 +0000
Subject: [PATCH 21/56] fix: keep color limits and bounds of which only some
 differ from the defaults

---
 src/WriterImpl.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 5ebea44..8de6267 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -711,8 +711,7 @@ namespace e57
          scan.set( "intensityLimits", intbox );
       }
 
-      if ( ( data3DHeader.colorLimits.colorRedMaximum != 0.0 ) ||
-           ( data3DHeader.colorLimits.colorRedMinimum != 0.0 ) )
+      if ( data3DHeader.colorLimits != ColorLimits{} )
       {
          StructureNode colorbox( imf_ );
 
@@ -740,8 +739,7 @@ namespace e57
 
       // Add Cartesian bounding box to scan.
       // Path names: "/data3D/0/cartesianBounds/xMinimum", etc...
-      if ( ( data3DHeader.cartesianBounds.xMinimum != -DOUBLE_MAX ) ||
-           ( data3DHeader.cartesianBounds.xMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.cartesianBounds != CartesianBounds{} )
       {
          StructureNode bbox( imf_ );
 
@@ -755,8 +753,7 @@ namespace e57
          scan.set( "cartesianBounds", bbox );
       }
 
-      if ( ( data3DHeader.sphericalBounds.rangeMinimum != 0.0 ) ||
-           ( data3DHeader.sphericalBounds.rangeMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.sphericalBounds != SphericalBounds{} )
       {
          StructureNode sbox( imf_ );
 
-- 
2.43.0


From dc910b40bc2ee9dc3bc86204189e9ea3cbaca70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:18 +0000
Subject: [PATCH 22/56] fix: compute value ranges only from the fields a scan
 has

---
 src/E57SimpleWriter.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index d11d81e..309240b 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -86,11 +86,18 @@ namespace
          if ( writePointRange && pointFields.cartesianXField )
          {
             pointRangeMinimum = std::min( inBuffers.cartesianX[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
-
             pointRangeMaximum = std::max( inBuffers.cartesianX[i], pointRangeMaximum );
+         }
+
+         if ( writePointRange && pointFields.cartesianYField )
+         {
+            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
             pointRangeMaximum = std::max( inBuffers.cartesianY[i], pointRangeMaximum );
+         }
+
+         if ( writePointRange && pointFields.cartesianZField )
+         {
+            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
             pointRangeMaximum = std::max( inBuffers.cartesianZ[i], pointRangeMaximum );
          }
 
@@ -103,12 +110,15 @@ namespace
             pointRangeMaximum = std::max( inBuffers.sphericalRange[i], pointRangeMaximum );
          }
 
-         if ( writeAngle )
+         if ( writeAngle && pointFields.sphericalAzimuthField )
          {
             angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );
-            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
-
             angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );
+         }
+
+         if ( writeAngle && pointFields.sphericalElevationField )
+         {
+            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
             angleMaximum = std::max( inBuffers.sphericalElevation[i], angleMaximum );
          }
 
-- 
2.43.0


From 1a1ce6b77314722141b139b302e3da0287e35cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:17 +0000
Subject: [PATCH 23/56] fix: give scaled integer fields of a scan without
 points a valid range

---
 src/E57SimpleWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index 309240b..333c20a 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -80,6 +80,14 @@ namespace
          ( pointFields.timeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
          ( pointFields.timeMinimum == cMin ) && ( pointFields.timeMaximum == cMax );
 
+      // Without points there is nothing to calculate the ranges from, so use empty ones
+      if ( ioData3DHeader.pointCount == 0 )
+      {
+         pointRangeMinimum = pointRangeMaximum = 0;
+         angleMinimum = angleMaximum = 0;
+         timeMinimum = timeMaximum = 0;
+      }
+
       // Now run through the points and set the things we need to
       for ( size_t i = 0; i < ioData3DHeader.pointCount; ++i )
       {
-- 
2.43.0


From 5f03d709eb6a06a855719db4375d81f17bc26391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:23 +0000
Subject: [PATCH 24/56] fix: refuse floating point values which do not fit an
 integer instead of converting them anyway

NaN, values of 2^63 and more, and scaled values outside of the 64-bit range were
cast without a check, which is undefined and stores or delivers arbitrary numbers.
---
 src/SourceDestBufferImpl.cpp | 63 +++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index ee779e2..f2368af 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <cmath>
+#include <limits>
 
 #include "ImageFileImpl.h"
 #include "SourceDestBufferImpl.h"
@@ -33,6 +34,20 @@
 
 using namespace e57;
 
+namespace
+{
+   /// Can a floating point value be converted to an integer type? NaN never can.
+   template <typename INT, typename REAL> bool fitsInteger( REAL value )
+   {
+      using limits = std::numeric_limits<INT>;
+
+      // The largest integer may have been rounded up to the next power of two, which is too large.
+      return ( value >= static_cast<REAL>( limits::min() ) ) &&
+             ( value <= static_cast<REAL>( limits::max() ) ) &&
+             ( value < std::ldexp( 1.0, limits::digits ) );
+   }
+}
+
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, const size_t capacity,
                                             bool doConversion, bool doScaling ) :
@@ -154,7 +169,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          }
          //??? fault if get special value: NaN, NegInf...  (all other ints below
          // too)
-         if ( inValue < INT8_MIN || INT8_MAX < inValue )
+         if ( !fitsInteger<int8_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -166,7 +181,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT8_MIN || UINT8_MAX < inValue )
+         if ( !fitsInteger<uint8_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -178,7 +193,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT16_MIN || INT16_MAX < inValue )
+         if ( !fitsInteger<int16_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -190,7 +205,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT16_MIN || UINT16_MAX < inValue )
+         if ( !fitsInteger<uint16_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -202,7 +217,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( !fitsInteger<int32_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +229,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( !fitsInteger<uint32_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +241,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( !fitsInteger<int64_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -364,7 +379,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInteger<int64_t>( *reinterpret_cast<float *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<float *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
          break;
       case Real64:
@@ -372,7 +392,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInteger<int64_t>( *reinterpret_cast<double *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<double *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
          break;
       case UString:
@@ -492,7 +517,7 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( !fitsInteger<int64_t>( doubleRawValue ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
@@ -851,7 +876,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
    switch ( memoryRepresentation_ )
    {
       case Int8:
-         if ( scaledValue < INT8_MIN || INT8_MAX < scaledValue )
+         if ( !fitsInteger<int8_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -860,7 +885,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int8_t *>( p ) = static_cast<int8_t>( scaledValue );
          break;
       case UInt8:
-         if ( scaledValue < UINT8_MIN || UINT8_MAX < scaledValue )
+         if ( !fitsInteger<uint8_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -869,7 +894,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint8_t *>( p ) = static_cast<uint8_t>( scaledValue );
          break;
       case Int16:
-         if ( scaledValue < INT16_MIN || INT16_MAX < scaledValue )
+         if ( !fitsInteger<int16_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -878,7 +903,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int16_t *>( p ) = static_cast<int16_t>( scaledValue );
          break;
       case UInt16:
-         if ( scaledValue < UINT16_MIN || UINT16_MAX < scaledValue )
+         if ( !fitsInteger<uint16_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -887,7 +912,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint16_t *>( p ) = static_cast<uint16_t>( scaledValue );
          break;
       case Int32:
-         if ( scaledValue < INT32_MIN || INT32_MAX < scaledValue )
+         if ( !fitsInteger<int32_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -896,7 +921,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int32_t *>( p ) = static_cast<int32_t>( scaledValue );
          break;
       case UInt32:
-         if ( scaledValue < UINT32_MIN || UINT32_MAX < scaledValue )
+         if ( !fitsInteger<uint32_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -905,6 +930,12 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( !fitsInteger<int64_t>( scaledValue ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-- 
2.43.0


From bf258e15239b8889c7647687043bb45591a48227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:35 +0000
Subject: [PATCH 25/56] fix: refuse doubles which are too large for single
 precision instead of storing infinity

---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index f2368af..1edf6d8 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -261,7 +261,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -613,7 +613,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -948,7 +948,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From 715f714bbf4b788a71ca0c593a1f7664b91b2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:18 +0000
Subject: [PATCH 26/56] fix: don't open other files the XML of an E57 file
 refers to

External entities, DTDs and schemas named in the XML were read from anywhere.
---
 src/E57XmlParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..645a1f1 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -311,6 +311,11 @@ void E57XmlParser::init()
    xmlReader->setFeature( XMLUni::fgXercesSchemaFullChecking, true );
    xmlReader->setFeature( XMLUni::fgSAX2CoreNameSpacePrefixes, true );
 
+   // Everything belonging to an E57 file is inside it, so don't let the XML refer to other files
+   xmlReader->setFeature( XMLUni::fgXercesLoadSchema, false );
+   xmlReader->setFeature( XMLUni::fgXercesLoadExternalDTD, false );
+   xmlReader->setFeature( XMLUni::fgXercesDisableDefaultEntityResolution, true );
+
    xmlReader->setContentHandler( this );
    xmlReader->setErrorHandler( this );
 }
-- 
2.43.0


From c5eb69e4d691af6bd14553a89d4fdb9e41d0e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:31 +0000
Subject: [PATCH 27/56] fix: limit the expansion of entities in the XML section

A few hundred bytes of nested entity declarations could use up all memory.
---
 src/E57XmlParser.cpp | 3 +++
 src/E57XmlParser.h   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 645a1f1..f0f1216 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -311,6 +311,9 @@ void E57XmlParser::init()
    xmlReader->setFeature( XMLUni::fgXercesSchemaFullChecking, true );
    xmlReader->setFeature( XMLUni::fgSAX2CoreNameSpacePrefixes, true );
 
+   // Limit how much the XML can grow by entities which refer to each other
+   xmlReader->setProperty( XMLUni::fgXercesSecurityManager, &securityManager_ );
+
    // Everything belonging to an E57 file is inside it, so don't let the XML refer to other files
    xmlReader->setFeature( XMLUni::fgXercesLoadSchema, false );
    xmlReader->setFeature( XMLUni::fgXercesLoadExternalDTD, false );
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index e1a5f86..cc79acc 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -31,6 +31,7 @@
 
 #include <xercesc/sax/InputSource.hpp>
 #include <xercesc/sax2/DefaultHandler.hpp>
+#include <xercesc/util/SecurityManager.hpp>
 
 #include "Common.h"
 
@@ -99,6 +100,8 @@ namespace e57
 
       std::stack<ParseInfo> stack_; /// Stores the current path in tree we are reading
 
+      SecurityManager securityManager_; /// Limits the expansion of entities
+
       SAX2XMLReader *xmlReader;
    };
 
-- 
2.43.0


From 6875ca5a40e50b1b6e1a7e38af98c01bc575c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:23 +0000
Subject: [PATCH 28/56] fix: refuse XML which is nested so deeply that reading
 it uses up the stack

---
 src/E57XmlParser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index f0f1216..846490e 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -82,6 +82,9 @@ static_assert( std::is_same<size_t, XMLSize_t>::value,
 
 namespace
 {
+   /// How deep the elements in the XML section may be nested
+   constexpr size_t cMaxNesting = 1024;
+
    inline int64_t convertStrToLL( const std::string &inStr )
    {
 #if defined( _MSC_VER )
@@ -349,6 +352,14 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
                 << std::endl;
    }
 #endif
+   // Nodes are processed recursively, so don't let the nesting of elements use up the stack
+   if ( stack_.size() >= cMaxNesting )
+   {
+      throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" + imf_->fileName() +
+                                                  " qName=" + toUString( qName ) +
+                                                  " nesting=" + toString( stack_.size() ) );
+   }
+
    // Get Type attribute
    ustring node_type = lookupAttribute( attributes, att_type );
 
-- 
2.43.0


From 2e3e388f795721cabbd6420513944d74a85e982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:37 +0000
Subject: [PATCH 29/56] fix: refuse a CompressedVector without prototype, and
 accept one without codecs

Both were left null and dereferenced later.
---
 src/E57XmlParser.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 846490e..97812d4 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -725,8 +725,24 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          break;
       case TypeCompressedVector:
       {
-         // Verify that both prototype and codecs child elements were defined
-         // ???
+         std::shared_ptr<CompressedVectorNodeImpl> cv_ni =
+            std::static_pointer_cast<CompressedVectorNodeImpl>( pi.container_ni );
+
+         // Without prototype there is no telling what the records are
+         if ( !cv_ni->getPrototype() )
+         {
+            throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" + imf_->fileName() +
+                                                        " uri=" + toUString( uri ) +
+                                                        " localName=" + toUString( localName ) +
+                                                        " qName=" + toUString( qName ) );
+         }
+
+         // Missing codecs are the same as no codecs
+         if ( !cv_ni->getCodecs() )
+         {
+            cv_ni->setCodecs( std::make_shared<VectorNodeImpl>( imf_, true ) );
+         }
+
          current_ni = pi.container_ni;
       }
       break;
-- 
2.43.0


From 5b714e02855f74da29d09b09413d0c497e4f9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:08 +0000
Subject: [PATCH 30/56] fix: don't squeeze the ranges of color fields into 16
 bits

Ranges of floating point color fields usually don't fit, which is undefined.
---
 src/ReaderImpl.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 37bfbe8..392dd25 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -167,8 +167,8 @@ namespace e57
          {
             const IntegerNode integerColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( integerColour.minimum() );
-            colourMax = static_cast<uint16_t>( integerColour.maximum() );
+            colourMin = static_cast<double>( integerColour.minimum() );
+            colourMax = static_cast<double>( integerColour.maximum() );
          }
          else if ( colourProto.type() == TypeScaledInteger )
          {
@@ -178,15 +178,15 @@ namespace e57
             const int64_t minimum = scaledColour.minimum();
             const int64_t maximum = scaledColour.maximum();
 
-            colourMin = static_cast<uint16_t>( minimum ) * scale + offset;
-            colourMax = static_cast<uint16_t>( maximum ) * scale + offset;
+            colourMin = static_cast<double>( minimum ) * scale + offset;
+            colourMax = static_cast<double>( maximum ) * scale + offset;
          }
          else if ( colourProto.type() == TypeFloat )
          {
             const FloatNode floatColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( floatColour.minimum() );
-            colourMax = static_cast<uint16_t>( floatColour.maximum() );
+            colourMin = floatColour.minimum();
+            colourMax = floatColour.maximum();
          }
       }
    }
-- 
2.43.0


From 48b7648bc6c99831a79474cacd478d71e3427402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:21 +0000
Subject: [PATCH 31/56] fix: avoid overflow when computing sizes from ranges
 read from a file

---
 src/ReaderImpl.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 392dd25..8e2fcb3 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -152,6 +152,19 @@ namespace e57
       return true;
    }
 
+   /// Number of integers in a range, or INT64_MAX if there are more than that.
+   static int64_t _rangeSize( int64_t minimum, int64_t maximum )
+   {
+      if ( maximum < minimum )
+      {
+         return 0;
+      }
+
+      const uint64_t size = static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum );
+
+      return ( size < INT64_MAX ) ? static_cast<int64_t>( size + 1 ) : INT64_MAX;
+   }
+
    /// Possibly get min/max from the colour node itself instead of the colorLimits.
    void _readColourRanges( const std::string &protoName, const StructureNode &proto,
                            double &colourMin, double &colourMax )
@@ -1494,14 +1507,14 @@ namespace e57
 
          if ( indexBounds.isDefined( "columnMaximum" ) )
          {
-            column = IntegerNode( indexBounds.get( "columnMaximum" ) ).value() -
-                     IntegerNode( indexBounds.get( "columnMinimum" ) ).value() + 1;
+            column = _rangeSize( IntegerNode( indexBounds.get( "columnMinimum" ) ).value(),
+                                 IntegerNode( indexBounds.get( "columnMaximum" ) ).value() );
          }
 
          if ( indexBounds.isDefined( "rowMaximum" ) )
          {
-            row = IntegerNode( indexBounds.get( "rowMaximum" ) ).value() -
-                  IntegerNode( indexBounds.get( "rowMinimum" ) ).value() + 1;
+            row = _rangeSize( IntegerNode( indexBounds.get( "rowMinimum" ) ).value(),
+                              IntegerNode( indexBounds.get( "rowMaximum" ) ).value() );
          }
       }
 
@@ -1528,7 +1541,8 @@ namespace e57
             {
                const IntegerNode integerIDElementValue( lineGroupRecord.get( "idElementValue" ) );
 
-               elementSize = integerIDElementValue.maximum() - integerIDElementValue.minimum() + 1;
+               elementSize =
+                  _rangeSize( integerIDElementValue.minimum(), integerIDElementValue.maximum() );
             }
             else if ( bColumnIndex )
             {
-- 
2.43.0


From 82e491c0765f9d08b5bd7bd019af09a14eeb4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:05 +0000
Subject: [PATCH 32/56] fix: refuse scaled values too large for double
 precision

Reading a scaled integer into a double buffer delivered infinity when scaling
left the range of double precision. All other types of buffer report that.
---
 src/SourceDestBufferImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 1edf6d8..bedeaab 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -961,6 +961,13 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
+         /// Check that scaling did not leave the range of double precision
+         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<double *>( p ) = scaledValue;
          break;
       case UString:
-- 
2.43.0


From 906b1abcaa6c204e824fd911c3ccd2ca2715b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:33:08 +0000
Subject: [PATCH 33/56] fix: apply the rules of vectors when setting a child by
 path name

StructureNode::set with the path name of a child of a vector added the child
under any name, and without checking that the vector stays homogeneous. The
name has to be the number of children, which makes it the same as append.
---
 src/StructureNodeImpl.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index a905fd1..aba88ad 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -370,6 +370,19 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
+      // A child of a vector is named by its position, so it can only be appended
+      if ( type() == TypeVector )
+      {
+         if ( fields.at( level ) != toString( children_.size() ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "this->pathName=" + this->pathName() +
+                                                             " element=" + fields.at( level ) );
+         }
+
+         append( ni );
+         return;
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
-- 
2.43.0


From 8484ddfc0d4f84e9a928054fd78af4c0bcb32d4d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:33:08 +0000
Subject: [PATCH 34/56] fix: refuse to set a node of a different file

StructureNode::set accepted nodes which were created for another ImageFile.
VectorNode::append already refuses them.
---
 src/StructureNodeImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index aba88ad..c7d1888 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -383,6 +383,14 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
          return;
       }
 
+      // Verify that child is destined for same ImageFile as this is
+      if ( destImageFile() != ni->destImageFile() )
+      {
+         throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                               "this->destImageFile" + imageFileName() + " ni->destImageFile" +
+                                  ni->imageFileName() );
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
-- 
2.43.0


From 5f81fd8fcfeadcc8e0c9ec187c090966bc6c4afd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:33:08 +0000
Subject: [PATCH 35/56] fix: refuse element names which can't be written

StructureNode::set accepted numbers and, when the path name ends in a slash,
the empty string as names of elements. Neither is a name in XML, so the closed
file could not be opened any more.
---
 src/StructureNodeImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index c7d1888..8abde01 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -383,6 +383,11 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
          return;
       }
 
+      // A number or an empty string can't be the name of an element in the XML
+      ustring prefix;
+      ustring localPart;
+      destImageFile()->elementNameParse( fields.at( level ), prefix, localPart, false );
+
       // Verify that child is destined for same ImageFile as this is
       if ( destImageFile() != ni->destImageFile() )
       {
-- 
2.43.0


From c7446b6b1e50308d4ccbf1b6c0f386f7383d1618 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:33:08 +0000
Subject: [PATCH 36/56] fix: don't let a node become its own descendant

Adding an unattached node to itself, or to one of its children, made a cycle
in which looking for the root never ended.
---
 src/NodeImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 9925500..f5b29ec 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -175,6 +175,14 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
                                " newParent->pathName=" + parent->pathName() );
    }
 
+   // A node can't become a descendant of itself
+   if ( parent->getRoot() == shared_from_this() )
+   {
+      throw E57_EXCEPTION2( ErrorAlreadyHasParent, "elementName=" + elementName +
+                                                      " newParent->pathName=" +
+                                                      parent->pathName() );
+   }
+
    parent_ = parent;
    elementName_ = elementName;
 
-- 
2.43.0


From e376b100f49272d837b6ad86f504349cc8b737ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:33:08 +0000
Subject: [PATCH 37/56] fix: check the first character of the local part of a
 name

Names such as "ext:1a" or "ext:-a" were accepted, but are not names in XML, so
the closed file could not be opened any more.
---
 src/ImageFileImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index c78b63e..ab27f67 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -749,6 +749,13 @@ namespace e57
                                                              " prefix=" + prefix +
                                                              " localPart=" + localPart );
          }
+
+         // The local part has to start like a name, too
+         c = localPart[0];
+         if ( c == '-' || c == '.' || ( '0' <= c && c <= '9' ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName );
+         }
       }
       else
       {
-- 
2.43.0


From 771abe7042c52d277a811ec27bc4bcae3cf9eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:33:55 +0000
Subject: [PATCH 38/56] fix: check the index of extensions

ImageFile::extensionsPrefix and extensionsUri read outside of the table of
extensions if the index is too large. They are documented to throw
ErrorBadAPIArgument.
---
 src/ImageFileImpl.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index ab27f67..093d4c6 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -467,14 +467,26 @@ namespace e57
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].prefix; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "fileName=" + fileName_ +
+                                                       " index=" + toString( index ) );
+      }
+
+      return nameSpaces_[index].prefix;
    }
 
    ustring ImageFileImpl::extensionsUri( const size_t index ) const
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].uri; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "fileName=" + fileName_ +
+                                                       " index=" + toString( index ) );
+      }
+
+      return nameSpaces_[index].uri;
    }
 
    bool ImageFileImpl::isElementNameExtended( const ustring &elementName )
-- 
2.43.0


From 45b799148ec8dedca7bb6819fa3eb4f1acf43023 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:34:26 +0000
Subject: [PATCH 39/56] fix: refuse extensions which can't be declared in XML

ImageFile::extensionsAdd accepted prefixes which are not names, the prefixes
reserved by XML, and empty URIs. The closed file could not be opened any more.
---
 src/ImageFileImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 093d4c6..34e278e 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -414,6 +414,14 @@ namespace e57
          ;
       }
 
+      // The declaration is written into the XML, so it has to be a legal one
+      if ( isWriter_ &&
+           ( uri.empty() || ( !prefix.empty() && !isElementNameExtended( prefix + ":a" ) ) ||
+             prefix == "xml" || prefix == "xmlns" ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
+      }
+
       // Append at end of list
       nameSpaces_.emplace_back( prefix, uri );
    }
-- 
2.43.0


From bf6fd0740edc6c334a0f870b326bc0605dea7b77 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:34:26 +0000
Subject: [PATCH 40/56] fix: refuse the URI of the default namespace for an
 extension

The default namespace is declared in every file, so an extension with the same
URI made a file with a duplicate declaration, which could not be opened.
---
 src/ImageFileImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 34e278e..80aef98 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -408,7 +408,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorDuplicateNamespacePrefix, "prefix=" + prefix + " uri=" + uri );
       }
 
-      if ( extensionsLookupUri( uri, dummy ) )
+      if ( extensionsLookupUri( uri, dummy ) ||
+           ( isWriter_ && !prefix.empty() && uri == VERSION_1_0_URI ) )
       {
          throw E57_EXCEPTION2( ErrorDuplicateNamespaceURI, "prefix=" + prefix + " uri=" + uri );
          ;
-- 
2.43.0


From b4a21e6ac104bd9c2968903ff60f97dd15962d83 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:34:26 +0000
Subject: [PATCH 41/56] fix: refuse to change files opened for reading

StructureNode::set, VectorNode::append and ImageFile::extensionsAdd changed the
tree of a file opened for reading, although it can't be stored. They are
documented to throw ErrorFileReadOnly.
---
 src/ImageFile.cpp     | 5 +++++
 src/StructureNode.cpp | 7 +++++++
 src/VectorNode.cpp    | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/ImageFile.cpp b/src/ImageFile.cpp
index 1947a44..3886dd1 100644
--- a/src/ImageFile.cpp
+++ b/src/ImageFile.cpp
@@ -507,6 +507,11 @@ See the class discussion at bottom of ImageFile page for more details about name
 */
 void ImageFile::extensionsAdd( const ustring &prefix, const ustring &uri )
 {
+   if ( impl_->isOpen() && !impl_->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->fileName() );
+   }
+
    impl_->extensionsAdd( prefix, uri );
 }
 
diff --git a/src/StructureNode.cpp b/src/StructureNode.cpp
index c01a9ef..e0ea456 100644
--- a/src/StructureNode.cpp
+++ b/src/StructureNode.cpp
@@ -352,6 +352,13 @@ destImageFile() == n.destImageFile()).
 */
 void StructureNode::set( const ustring &pathName, const Node &n )
 {
+   impl_->checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
+   if ( !destImageFile().isWritable() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->imageFileName() );
+   }
+
    impl_->set( pathName, n.impl(), false );
 }
 
diff --git a/src/VectorNode.cpp b/src/VectorNode.cpp
index 8ba5ab5..6aec71c 100644
--- a/src/VectorNode.cpp
+++ b/src/VectorNode.cpp
@@ -380,6 +380,13 @@ destImageFile().isWritable()).
 */
 void VectorNode::append( const Node &n )
 {
+   impl_->checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
+   if ( !destImageFile().isWritable() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->imageFileName() );
+   }
+
    impl_->append( n.impl() );
 }
 
-- 
2.43.0


From 27539206fca51f8c019c7c82e511df327d757798 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:34:26 +0000
Subject: [PATCH 42/56] fix: refuse attached nodes as prototype or codecs

A CompressedVectorNode accepted the root of the file, or the prototype of
another CompressedVectorNode, as its prototype. With the root, attaching it
recursed until the stack was used up.
---
 src/CompressedVectorNodeImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 7f98aab..020596b 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -54,8 +54,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorSetTwice, "this->pathName=" + this->pathName() );
       }
 
-      // prototype can't have a parent (must be a root node)
-      if ( !prototype->isRoot() )
+      // prototype can't have a parent (must be a root node), or be in use already
+      if ( !prototype->isRoot() || prototype->isAttached() )
       {
          throw E57_EXCEPTION2( ErrorAlreadyHasParent,
                                "this->pathName=" + this->pathName() +
@@ -99,8 +99,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorSetTwice, "this->pathName=" + this->pathName() );
       }
 
-      // codecs can't have a parent (must be a root node)
-      if ( !codecs->isRoot() )
+      // codecs can't have a parent (must be a root node), or be in use already
+      if ( !codecs->isRoot() || codecs->isAttached() )
       {
          throw E57_EXCEPTION2( ErrorAlreadyHasParent,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 133465e1a7633eed2e29e42092fa95fb9f092698 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:48:08 +0000
Subject: [PATCH 43/56] fix: read files which have a child element named
 e57Root

Only the outermost element declares the name spaces.
---
 src/E57XmlParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 97812d4..ea806f4 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -566,7 +566,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       pi.nodeType = TypeStructure;
 
       // Read name space decls, if e57Root element
-      if ( toUString( localName ) == "e57Root" )
+      if ( stack_.empty() && toUString( localName ) == "e57Root" )
       {
          // Search attributes for namespace declarations (only allowed in E57Root structure)
          bool gotDefault = false;
@@ -612,7 +612,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 
       // After have Structure, check again if E57Root, if so mark attached so all children will be
       // attached when added
-      if ( toUString( localName ) == "e57Root" )
+      if ( stack_.empty() && toUString( localName ) == "e57Root" )
       {
          s_ni->setAttachedRecursive();
       }
-- 
2.43.0


From 2b5eef28502db6848b64297d40af4dc61aad6497 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:48:08 +0000
Subject: [PATCH 44/56] fix: refuse a default name space other than that of E57

The elements of the standard would no longer be in the name space of the standard.
---
 src/ImageFileImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 80aef98..e68353b 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -417,8 +417,9 @@ namespace e57
 
       // The declaration is written into the XML, so it has to be a legal one
       if ( isWriter_ &&
-           ( uri.empty() || ( !prefix.empty() && !isElementNameExtended( prefix + ":a" ) ) ||
-             prefix == "xml" || prefix == "xmlns" ) )
+           ( uri.empty() || ( prefix.empty() && uri != VERSION_1_0_URI ) ||
+             ( !prefix.empty() && !isElementNameExtended( prefix + ":a" ) ) || prefix == "xml" ||
+             prefix == "xmlns" ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
       }
-- 
2.43.0


From 91c3562feb9e1447888be8ca3ff384f985d4f503 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:14:57 +0000
Subject: [PATCH 45/56] fix: complete short writes

If only a part of a page was written, for instance because the disk is full, the file was damaged
without any error. Write the rest of the page, so that either it is complete or there is an error.
---
 src/CheckedFile.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 7c1988c..e40c373 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -814,17 +814,25 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
    // Seek to start of physical page
    seek( page * physicalPageSize, Physical );
 
+   size_t written = 0;
+
+   while ( written < physicalPageSize )
+   {
 #if defined( _MSC_VER )
-   int result = ::_write( fd_, page_buffer, physicalPageSize );
+      int result = ::_write( fd_, page_buffer + written,
+                             static_cast<unsigned int>( physicalPageSize - written ) );
 #elif defined( __GNUC__ )
-   ssize_t result = ::write( fd_, page_buffer, physicalPageSize );
+      ssize_t result = ::write( fd_, page_buffer + written, physicalPageSize - written );
 #else
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
-   {
-      throw E57_EXCEPTION2( ErrorWriteFailed,
-                            "fileName=" + fileName_ + " result=" + toString( result ) );
+      if ( result <= 0 )
+      {
+         throw E57_EXCEPTION2( ErrorWriteFailed,
+                               "fileName=" + fileName_ + " result=" + toString( result ) );
+      }
+
+      written += static_cast<size_t>( result );
    }
 }
-- 
2.43.0


From e5892f633c144a14191ea63311ecc42ddf7da00b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:13:41 +0000
Subject: [PATCH 46/56] fix: don't end the program if closing fails in a
 destructor

The destructors of Writer and Reader close the file. If that failed, std::terminate() was called.
---
 src/ReaderImpl.cpp | 11 +++++++++--
 src/WriterImpl.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 8e2fcb3..5b4edc4 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -213,9 +213,16 @@ namespace e57
 
    ReaderImpl::~ReaderImpl()
    {
-      if ( IsOpen() )
+      // A destructor must not throw, so call Close() explicitly to be told about failures
+      try
+      {
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
       {
-         Close();
       }
    }
 
diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 8de6267..e7f644a 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -187,9 +187,16 @@ namespace e57
 
    WriterImpl::~WriterImpl()
    {
-      if ( IsOpen() )
+      // A destructor must not throw, so call Close() explicitly to be told about failures
+      try
+      {
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
       {
-         Close();
       }
    }
 
-- 
2.43.0


From 4d284ef0d5efdc620a3bebfdac89ba85b4669f7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:13:41 +0000
Subject: [PATCH 47/56] fix: don't close a file descriptor twice

If closing reported an error, the descriptor was closed again in the destructor. By then it might
belong to another file.
---
 src/CheckedFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index e40c373..2084d95 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -696,13 +696,14 @@ void CheckedFile::close()
 #else
 #error "no supported compiler defined"
 #endif
+      // The descriptor can't be used again, even if closing it failed
+      fd_ = -1;
+
       if ( result < 0 )
       {
          throw E57_EXCEPTION2( ErrorCloseFailed,
                                "fileName=" + fileName_ + " result=" + toString( result ) );
       }
-
-      fd_ = -1;
    }
 
    if ( bufView_ != nullptr )
-- 
2.43.0


From f6faff2cdd1e7e0ce0f696a6ed343f6ae403e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:29:53 +0000
Subject: [PATCH 48/56] fix: release the strings of XML parser messages

Each error and warning of the parser leaked the transcoded strings.
---
 src/E57XmlParser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index ea806f4..4d1b692 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -296,7 +296,7 @@ void E57XmlParser::init()
    {
       // Turn parser exception into E57Exception
       throw E57_EXCEPTION2( ErrorXMLParserInit,
-                            "parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                            "parserMessage=" + toUString( ex.getMessage() ) );
    }
 
    xmlReader = XMLReaderFactory::createXMLReader(); //??? auto_ptr?
@@ -978,28 +978,28 @@ void E57XmlParser::characters( const XMLCh *const chars, const XMLSize_t length
 void E57XmlParser::error( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::fatalError( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::warning( const SAXParseException &ex )
 {
    // Don't take any action on warning from parser, just report
-   std::cerr << "**** XML parser warning: " << ustring( XMLString::transcode( ex.getMessage() ) )
+   std::cerr << "**** XML parser warning: " << toUString( ex.getMessage() )
              << std::endl;
    std::cerr << "  Debug info:" << std::endl;
-   std::cerr << "    systemId=" << XMLString::transcode( ex.getSystemId() ) << std::endl;
+   std::cerr << "    systemId=" << toUString( ex.getSystemId() ) << std::endl;
    std::cerr << ",   xmlLine=" << ex.getLineNumber() << std::endl;
    std::cerr << ",   xmlColumn=" << ex.getColumnNumber() << std::endl;
 }
-- 
2.43.0


From 1d74bfce95cc4653fe2900b7f3dada776a2b4f5d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:29:54 +0000
Subject: [PATCH 49/56] fix: close files which can't be used

If the length of a file was no multiple of the page size, the file descriptor leaked.
---
 src/CheckedFile.cpp | 8 +++++++-
 src/CheckedFile.h   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 2084d95..c77f647 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -195,8 +195,14 @@ private:
    const char *stream_;
 };
 
-CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy policy ) :
+CheckedFile::CheckedFile( const ustring &fileName, ReadChecksumPolicy policy ) :
    fileName_( fileName ), checkSumPolicy_( policy )
+{
+}
+
+// Delegates, so that the destructor closes the file if there is an exception in here
+CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy policy ) :
+   CheckedFile( fileName, policy )
 {
    switch ( mode )
    {
diff --git a/src/CheckedFile.h b/src/CheckedFile.h
index 8ff4372..6980a2e 100644
--- a/src/CheckedFile.h
+++ b/src/CheckedFile.h
@@ -89,6 +89,8 @@ namespace e57
       static inline uint64_t physicalToLogical( uint64_t physicalOffset );
 
    private:
+      CheckedFile( const e57::ustring &fileName, ReadChecksumPolicy policy );
+
       void verifyChecksum( char *page_buffer, uint64_t page );
 
       template <class FTYPE> CheckedFile &writeFloatingPoint( FTYPE value, int precision );
-- 
2.43.0


From 108e9d2255a07f8692bfbe6321e5fd8ac0ce6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:33:09 +0000
Subject: [PATCH 50/56] fix: don't throw through the XML parser when reading
 fails

The parser isn't able to clean up after an exception from its input at any time, so memory leaked.
---
 src/E57XmlParser.cpp | 44 ++++++++++++++++++++++++++++++++++++--------
 src/E57XmlParser.h   | 12 +++++++++++-
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 4d1b692..3172d46 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -130,7 +130,8 @@ namespace
 class E57FileInputStream : public BinInputStream
 {
 public:
-   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength );
+   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength,
+                       std::exception_ptr &readError );
    ~E57FileInputStream() override = default;
 
    E57FileInputStream( const E57FileInputStream & ) = delete;
@@ -154,12 +155,13 @@ private:
    uint64_t logicalStart_;
    uint64_t logicalLength_;
    uint64_t logicalPosition_;
+   std::exception_ptr &readError_;
 };
 
 E57FileInputStream::E57FileInputStream( CheckedFile *cf, uint64_t logicalStart,
-                                        uint64_t logicalLength ) :
+                                        uint64_t logicalLength, std::exception_ptr &readError ) :
    cf_( cf ), logicalStart_( logicalStart ), logicalLength_( logicalLength ),
-   logicalPosition_( logicalStart )
+   logicalPosition_( logicalStart ), readError_( readError )
 {
 }
 
@@ -208,8 +210,19 @@ XMLSize_t E57FileInputStream::readBytes( XMLByte *const toFill, const XMLSize_t
 
    size_t readCount = std::min( maxToRead_size, available_size );
 
-   cf_->seek( logicalPosition_ );
-   cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   // Not all of the parser's code is able to clean up after an exception, so end the input instead
+   // and report the error when the parser is done.
+   try
+   {
+      cf_->seek( logicalPosition_ );
+      cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   }
+   catch ( ... )
+   {
+      readError_ = std::current_exception();
+      logicalPosition_ = logicalStart_ + logicalLength_;
+      return ( 0 );
+   }
    logicalPosition_ += readCount;
    return ( readCount );
 }
@@ -228,7 +241,7 @@ E57XmlFileInputSource::E57XmlFileInputSource( CheckedFile *cf, uint64_t logicalS
 
 BinInputStream *E57XmlFileInputSource::makeStream() const
 {
-   return new E57FileInputStream( cf_, logicalStart_, logicalLength_ );
+   return new E57FileInputStream( cf_, logicalStart_, logicalLength_, readError_ );
 }
 
 //=============================================================================
@@ -326,9 +339,24 @@ void E57XmlParser::init()
    xmlReader->setErrorHandler( this );
 }
 
-void E57XmlParser::parse( InputSource &inputSource )
+void E57XmlParser::parse( E57XmlFileInputSource &inputSource )
 {
-   xmlReader->parse( inputSource );
+   try
+   {
+      xmlReader->parse( inputSource );
+   }
+   catch ( ... )
+   {
+      if ( !inputSource.readError() )
+      {
+         throw;
+      }
+   }
+
+   if ( inputSource.readError() )
+   {
+      std::rethrow_exception( inputSource.readError() );
+   }
 }
 
 void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const localName,
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index cc79acc..12b88bb 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <exception>
 #include <stack>
 
 #include <xercesc/sax/InputSource.hpp>
@@ -45,6 +46,7 @@ namespace XERCES_CPP_NAMESPACE
 namespace e57
 {
    class CheckedFile;
+   class E57XmlFileInputSource;
 
    class E57XmlParser : public DefaultHandler
    {
@@ -54,7 +56,7 @@ namespace e57
 
       void init();
 
-      void parse( InputSource &inputSource );
+      void parse( E57XmlFileInputSource &inputSource );
 
    private:
       /// SAX interface
@@ -116,10 +118,18 @@ namespace e57
 
       BinInputStream *makeStream() const override;
 
+      /// Error of reading the file, if there was one
+      const std::exception_ptr &readError() const
+      {
+         return readError_;
+      }
+
    private:
       //??? lifetime of cf_ must be longer than this object!
       CheckedFile *cf_;
       uint64_t logicalStart_;
       uint64_t logicalLength_;
+
+      mutable std::exception_ptr readError_;
    };
 }
-- 
2.43.0


From 7c8810fb2930a7ec8f835541f6d4122112e367b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:41:24 +0000
Subject: [PATCH 51/56] fix: write numbers independently of the global locale

With a global locale that groups digits, offsets, integers and the names of vector elements got thousands separators.
---
 src/CheckedFile.cpp       | 2 ++
 src/StringFunctions.h     | 2 ++
 src/StructureNodeImpl.cpp | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index c77f647..58301e0 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -471,6 +471,7 @@ CheckedFile &CheckedFile::operator<<( const ustring &s )
 CheckedFile &CheckedFile::operator<<( int64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
@@ -478,6 +479,7 @@ CheckedFile &CheckedFile::operator<<( int64_t i )
 CheckedFile &CheckedFile::operator<<( uint64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index b40b119..a932978 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -30,6 +30,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 
@@ -49,6 +50,7 @@ namespace e57
                      "Numeric type required." );
 
       std::ostringstream ss;
+      ss.imbue( std::locale::classic() );
       ss << x;
       return ss.str();
    }
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 8abde01..2cc3f8e 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -276,6 +276,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
 
    // Field name is string version of index value, e.g. "14"
    std::stringstream elementName;
+   elementName.imbue( std::locale::classic() );
    elementName << index;
 
    // If this struct is type constrained, can't add new child
-- 
2.43.0


From b73265db232ffaee4a707c85988a49d69e687c36 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 04:14:35 +0000
Subject: [PATCH 52/56] fix: let threads open files at the same time

The XML parser counts its initialisations without protection, so that threads which open files at the same time could end up using a parser library that has been shut down.
---
 src/E57XmlParser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 3172d46..abbb1de 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -27,6 +27,7 @@
 
 #include <limits>
 #include <locale>
+#include <mutex>
 #include <sstream>
 
 #include <xercesc/sax2/Attributes.hpp>
@@ -85,6 +86,13 @@ namespace
    /// How deep the elements in the XML section may be nested
    constexpr size_t cMaxNesting = 1024;
 
+   /// Protects the calls of XMLPlatformUtils::Initialize() and Terminate()
+   std::mutex &platformMutex()
+   {
+      static std::mutex mutex;
+      return mutex;
+   }
+
    inline int64_t convertStrToLL( const std::string &inStr )
    {
 #if defined( _MSC_VER )
@@ -293,6 +301,7 @@ E57XmlParser::~E57XmlParser()
 
    xmlReader = nullptr;
 
+   const std::lock_guard<std::mutex> lock( platformMutex() );
    XMLPlatformUtils::Terminate();
 }
 
@@ -301,8 +310,9 @@ void E57XmlParser::init()
    // Initialize the XML4C2 system
    try
    {
-      // NOTE: This is not thread safe for multiple simultaneous E57 readers.
+      // NOTE: The parser counts these calls, but not in a thread safe way.
       //       Ideally we'd do this once, not once per reader.
+      const std::lock_guard<std::mutex> lock( platformMutex() );
       XMLPlatformUtils::Initialize();
    }
    catch ( const XMLException &ex )
-- 
2.43.0


From b0af1d2abd2484dba3734968c5057fdb65a3a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 04:11:24 +0000
Subject: [PATCH 53/56] fix: let threads generate GUIDs at the same time

---
 src/Common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common.cpp b/src/Common.cpp
index 868c71a..886d4fc 100644
--- a/src/Common.cpp
+++ b/src/Common.cpp
@@ -3,6 +3,7 @@
 
 #include "Common.h"
 
+#include <mutex>
 #include <random>
 
 namespace e57
@@ -15,6 +16,9 @@ namespace e57
       static std::mt19937 gen( rd() );
       static std::uniform_int_distribution<> dis( 0, 15 /* number of chars in UUID_CHARS */ );
 
+      static std::mutex mutex;
+      const std::lock_guard<std::mutex> lock( mutex );
+
       std::string uuid( 38, ' ' );
 
       uuid[0] = '{';
-- 
2.43.0


From 3d938c08a27470201115b6fece7e761085071618 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 04:58:09 +0000
Subject: [PATCH 54/56] fix: keep the intensity limits of scans with floating
 point intensities

---
 src/ReaderImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 5b4edc4..33080f1 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -1379,8 +1379,11 @@ namespace e57
             {
                const FloatNode floatIntensity( intensityProto );
 
-               data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
-               data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               {
+                  data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
+                  data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               }
 
                if ( floatIntensity.precision() == PrecisionSingle )
                {
-- 
2.43.0


From 23e6ecb0c2754d6f718965d709746a32543c8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 06:02:19 +0000
Subject: [PATCH 55/56] fix: let the objects of a closed file be dumped

---
 src/FloatNodeImpl.cpp  | 2 +-
 src/ImageFileImpl.cpp  | 6 +++---
 src/NodeImpl.cpp       | 7 ++++++-
 src/VectorNodeImpl.cpp | 2 +-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/FloatNodeImpl.cpp b/src/FloatNodeImpl.cpp
index 907e875..9457272 100644
--- a/src/FloatNodeImpl.cpp
+++ b/src/FloatNodeImpl.cpp
@@ -217,7 +217,7 @@ namespace e57
       os << space( indent ) << "type:        Float" << " (" << type() << ")" << std::endl;
       NodeImpl::dump( indent, os );
       os << space( indent ) << "precision:   ";
-      if ( precision() == PrecisionSingle )
+      if ( precision_ == PrecisionSingle )
       {
          os << "single" << std::endl;
       }
diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index e68353b..e6f83d2 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -872,10 +872,10 @@ namespace e57
       os << space( indent ) << "writerCount: " << writerCount_ << std::endl;
       os << space( indent ) << "readerCount: " << readerCount_ << std::endl;
       os << space( indent ) << "isWriter:    " << isWriter_ << std::endl;
-      for ( size_t i = 0; i < extensionsCount(); i++ )
+      for ( size_t i = 0; i < nameSpaces_.size(); i++ )
       {
-         os << space( indent ) << "nameSpace[" << i << "]: prefix=" << extensionsPrefix( i )
-            << " uri=" << extensionsUri( i ) << std::endl;
+         os << space( indent ) << "nameSpace[" << i << "]: prefix=" << nameSpaces_[i].prefix
+            << " uri=" << nameSpaces_[i].uri << std::endl;
       }
       os << space( indent ) << "root:      " << std::endl;
       root_->dump( indent + 2, os );
diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index f5b29ec..34dfd71 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -395,7 +395,12 @@ void NodeImpl::dump( int indent, std::ostream &os ) const
    // don't checkImageFileOpen
    os << space( indent ) << "elementName: " << elementName_ << std::endl;
    os << space( indent ) << "isAttached:  " << isAttached_ << std::endl;
-   os << space( indent ) << "path:        " << pathName() << std::endl;
+   ustring path = elementName_;
+   for ( auto p = parent_.lock(); p && !p->parent_.expired(); p = p->parent_.lock() )
+   {
+      path = p->elementName_ + "/" + path;
+   }
+   os << space( indent ) << "path:        /" << path << std::endl;
 }
 #endif
 
diff --git a/src/VectorNodeImpl.cpp b/src/VectorNodeImpl.cpp
index fda9f27..aec9d0c 100644
--- a/src/VectorNodeImpl.cpp
+++ b/src/VectorNodeImpl.cpp
@@ -130,7 +130,7 @@ namespace e57
       // don't checkImageFileOpen
       os << space( indent ) << "type:        Vector" << " (" << type() << ")" << std::endl;
       NodeImpl::dump( indent, os ); // NOLINT(bugprone-parent-virtual-call)
-      os << space( indent ) << "allowHeteroChildren: " << allowHeteroChildren() << std::endl;
+      os << space( indent ) << "allowHeteroChildren: " << allowHeteroChildren_ << std::endl;
       for ( unsigned i = 0; i < children_.size(); i++ )
       {
          os << space( indent ) << "child[" << i << "]:" << std::endl;
-- 
2.43.0


From bf081bc3671a29354cdaf0959189fab5c3cf57e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 06:02:19 +0000
Subject: [PATCH 56/56] fix: give string buffers a stride

---
 src/SourceDestBufferImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index bedeaab..fa47098 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -124,7 +124,7 @@ template void SourceDestBufferImpl::setTypeInfo<double>( double *base, size_t st
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, std::vector<ustring> *b ) :
    destImageFile_( destImageFile ), pathName_( pathName ), memoryRepresentation_( UString ),
-   ustrings_( b )
+   stride_( sizeof( ustring ) ), ustrings_( b )
 {
    /// don't checkImageFileOpen, checkState_ will do it
 
-- 
2.43.0

