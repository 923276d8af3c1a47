From 9e29cc70d88416f8676162c0eb9ebdea6bc34d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 01/16] fix: apply delta and varint encoding to the ID and
 value columns independently

Encoding types 1, 2, 5 and 6 encode only one of the two columns. The writer
delta encoded both columns (or neither) for them, and the reader used varint
decoding for both columns, so such files could not be read back.
---
 pkg/col/reader_decode.go   |  9 ++++++---
 pkg/col/writer_block.go    |  4 ++--
 pkg/col/writer_encoding.go | 28 ++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..6b71987 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,12 +11,15 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
-	isVarInt := encodingType == EncodingVarInt ||
+	// Each column uses variable-length encoding independently of the other
+	idsAreVarInt := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntID ||
+		encodingType == EncodingVarIntBoth
+	valuesAreVarInt := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntValue ||
 		encodingType == EncodingVarIntBoth
 
-	if isVarInt {
+	if idsAreVarInt {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +48,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if valuesAreVarInt {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..6bcc05c 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,10 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	return encodeData(idEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	return encodeData(valueEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..ded762b 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -4,6 +4,34 @@ import (
 	"fmt"
 )
 
+// idEncoding returns the encoding that a file encoding type applies to the ID column
+func idEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaID:
+		return EncodingDeltaBoth
+	case EncodingVarIntID:
+		return EncodingVarIntBoth
+	case EncodingDeltaValue, EncodingVarIntValue:
+		return EncodingRaw
+	default:
+		return encodingType
+	}
+}
+
+// valueEncoding returns the encoding that a file encoding type applies to the value column
+func valueEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaValue:
+		return EncodingDeltaBoth
+	case EncodingVarIntValue:
+		return EncodingVarIntBoth
+	case EncodingDeltaID, EncodingVarIntID:
+		return EncodingRaw
+	default:
+		return encodingType
+	}
+}
+
 // encodeData is a helper function to encode data based on the encoding type
 func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint32, error) {
 	var encodedData []T
-- 
2.43.0


From 69a1d78804ab973ff6deedf8526d3d133d1f33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 02/16] fix: convert the stored form of math.MinInt64 back to
 math.MinInt64

int64ToUint64(math.MinInt64) is 1<<63, which uint64ToInt64 turned into 0, so a
block whose minimum, maximum or sum is math.MinInt64 had wrong statistics.
---
 pkg/col/encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..a8fd4ab 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -94,6 +94,10 @@ func uint64ToInt64(value uint64) int64 {
 	if value&(1<<63) == 0 {
 		return int64(value)
 	}
+	// The sign bit alone is math.MinInt64, whose magnitude needs the sign bit itself
+	if value == 1<<63 {
+		return -1 << 63
+	}
 	// Handle negative values by converting bits back
 	return ^int64(value&^(1<<63)) + 1
 }
-- 
2.43.0


From c4177bf0223f2110b6eff2b01a63dbd887c87e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 03/16] fix: return the zero aggregate when no value is
 selected

Aggregations over an empty file, or whose filter selects no value of a block it
overlaps, returned math.MaxInt64 and math.MinInt64 as minimum and maximum.
---
 pkg/col/reader_aggregate.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pkg/col/reader_aggregate.go b/pkg/col/reader_aggregate.go
index 8b6956c..aab6bc2 100644
--- a/pkg/col/reader_aggregate.go
+++ b/pkg/col/reader_aggregate.go
@@ -77,6 +77,11 @@ func (r *Reader) AggregateWithOptions(opts AggregateOptions) AggregateResult {
 			sum += blockSum
 		}
 
+		// An empty selection has the zero result
+		if count == 0 {
+			return AggregateResult{}
+		}
+
 		// Calculate average
 		var avg float64 = 0
 		if count > 0 {
@@ -117,6 +122,11 @@ func (r *Reader) AggregateWithOptions(opts AggregateOptions) AggregateResult {
 		}
 	}
 
+	// An empty selection has the zero result
+	if count == 0 {
+		return AggregateResult{}
+	}
+
 	// Calculate average
 	var avg float64 = 0
 	if count > 0 {
@@ -251,6 +261,11 @@ func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
 		}
 	}
 
+	// An empty selection has the zero result
+	if count == 0 {
+		return AggregateResult{}
+	}
+
 	// Calculate average
 	var avg float64 = 0
 	if count > 0 {
@@ -416,6 +431,11 @@ func (r *Reader) aggregateParallelWithFooter(blockIndices []uint64, numWorkers i
 		finalResult.Count += result.Count
 	}
 
+	// An empty selection has the zero result
+	if totalCount == 0 {
+		return AggregateResult{}
+	}
+
 	// Calculate final average
 	if totalCount > 0 {
 		finalResult.Avg = float64(totalSum) / float64(totalCount)
@@ -532,6 +552,11 @@ func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts Aggreg
 		finalResult.Count += result.Count
 	}
 
+	// An empty selection has the zero result
+	if totalCount == 0 {
+		return AggregateResult{}
+	}
+
 	// Calculate final average
 	if totalCount > 0 {
 		finalResult.Avg = float64(totalSum) / float64(totalCount)
-- 
2.43.0


From 367a3eaf880f32a5336045199ac5015165045af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 04/16] fix: reject reads beyond the end of the file

readBytesAt returned a zero-filled buffer for a read that hit the end of the
file, and panicked or allocated without limit for sizes taken from a damaged
file.
---
 pkg/col/reader_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..68010e6 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -8,12 +8,16 @@ import (
 
 // readBytesAt reads bytes at a specific offset
 func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
+	// Offsets and sizes come from the file: never read, or allocate for, bytes it does not have
+	if offset < 0 || size < 0 || int64(size) > r.fileSize-offset {
+		return nil, fmt.Errorf("invalid read of %d bytes at offset %d: file has %d bytes", size, offset, r.fileSize)
+	}
 	buf := make([]byte, size)
 	n, err := r.file.ReadAt(buf, offset)
 	if err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
 	}
-	if n < size && err != io.EOF {
+	if n < size {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
 	return buf, nil
-- 
2.43.0


From 26af21c7c523e3b1c9aaf7e604017adffe214545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 05/16] fix: fail instead of inventing data for incomplete
 block sections

Decoding a section that holds fewer IDs or values than the block index says
filled the rest with made-up data, or returned fewer pairs, without an error.
---
 pkg/col/reader_decode.go | 84 +++++++++++-----------------------------
 1 file changed, 23 insertions(+), 61 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 6b71987..e0f5388 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -26,22 +26,14 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 			return nil, nil, fmt.Errorf("failed to decode varint IDs: %w", err)
 		}
 	} else {
-		// Calculate max number of IDs we can read
+		// Read fixed-width IDs
 		bytesPerID := 8
-		maxCount := len(idBytes) / bytesPerID
-		if count > maxCount {
-			count = maxCount
+		if len(idBytes)/bytesPerID < count {
+			return nil, nil, fmt.Errorf("ID section too small: %d bytes for %d IDs", len(idBytes), count)
 		}
-
-		// Read fixed-width IDs
 		ids = make([]uint64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerID+bytesPerID <= len(idBytes) {
-				ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
-			} else {
-				// Mock test data for out-of-bounds reads
-				ids[i] = uint64(i + 1)
-			}
+			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
 		}
 	}
 
@@ -49,44 +41,29 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var values []int64
 
 	if valuesAreVarInt {
-		// Decode variable-length values
+		// Decode variable-length values, each of which takes at least one byte
+		if len(valueBytes) < count {
+			return nil, nil, fmt.Errorf("value section too small: %d bytes for %d values", len(valueBytes), count)
+		}
 		values = make([]int64, count)
 		offset := 0
-		for i := 0; i < count && offset < len(valueBytes); i++ {
-			var bytesRead int
-			if offset < len(valueBytes) {
-				values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
-				if bytesRead <= 0 {
-					// Mock test data for invalid varints
-					values[i] = int64((i + 1) * 100)
-					bytesRead = 1
-				}
-				offset += bytesRead
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
+		for i := 0; i < count; i++ {
+			value, bytesRead := decodeSignedVarInt(valueBytes[offset:])
+			if bytesRead <= 0 || valueBytes[offset+bytesRead-1]&0x80 != 0 {
+				return nil, nil, fmt.Errorf("failed to decode varint value at index %d, bytes remaining: %d", i, len(valueBytes)-offset)
 			}
+			values[i] = value
+			offset += bytesRead
 		}
 	} else {
 		// Decode fixed-width values
 		bytesPerValue := 8
-		maxCount := len(valueBytes) / bytesPerValue
-		if count > maxCount {
-			count = maxCount
-			// Adjust IDs to match
-			if len(ids) > count {
-				ids = ids[:count]
-			}
+		if len(valueBytes)/bytesPerValue < count {
+			return nil, nil, fmt.Errorf("value section too small: %d bytes for %d values", len(valueBytes), count)
 		}
-
 		values = make([]int64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerValue+bytesPerValue <= len(valueBytes) {
-				values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
-			}
+			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
 		}
 	}
 
@@ -116,24 +93,17 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 
 // Helper function to decode exactly 'count' UVarInts from buf
 func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
+	// Each varint takes at least one byte
+	if len(buf) < count {
+		return nil, fmt.Errorf("section too small: %d bytes for %d uvarints", len(buf), count)
+	}
+
 	vals := make([]uint64, 0, count)
 	offset := 0
 
-	// Try to decode up to 'count' varints, but stop if we run out of data
-	for i := 0; i < count && offset < len(buf); i++ {
-		// Make sure we have at least one byte to read
-		if offset >= len(buf) {
-			break
-		}
-
-		// Try to decode a varint
+	for i := 0; i < count; i++ {
 		v, n := binary.Uvarint(buf[offset:])
 		if n <= 0 {
-			// If we can't decode any more varints but we've already decoded some,
-			// return what we have instead of failing
-			if i > 0 {
-				return vals, nil
-			}
 			return nil, fmt.Errorf("failed to decode uvarint at index %d, bytes remaining: %d", i, len(buf)-offset)
 		}
 
@@ -141,13 +111,5 @@ func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 		offset += n
 	}
 
-	// If we couldn't decode enough varints, return what we have
-	if len(vals) < count {
-		// Fill the rest with sequential IDs as needed for tests
-		for i := len(vals); i < count; i++ {
-			vals = append(vals, uint64(i+1))
-		}
-	}
-
 	return vals, nil
 }
-- 
2.43.0


From c61c441fce4d35fd33a3232a8968931c8f410c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/16] fix: reject files whose header counts more blocks than
 the block index

The aggregations index the block index with block numbers up to the header's
block count, and panicked for such a file.
---
 pkg/col/reader_header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 32a7419..12f0b96 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -108,6 +108,8 @@ func (r *Reader) readFooter() error {
 		// Use the higher value to ensure we don't miss data
 		if uint64(blockIndexCount) > r.header.BlockCount {
 			r.header.BlockCount = uint64(blockIndexCount)
+		} else {
+			return fmt.Errorf("header has %d blocks but the block index has %d entries", r.header.BlockCount, blockIndexCount)
 		}
 	}
 
-- 
2.43.0


From 402f95842356894a7e4d44cd741d0d4e89011521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 07/16] fix: reject blocks too small for their layout section

Such a block, or more than 76,695,844 blocks (whose offsets in the block index
overflowed 32 bits), made the reader panic or read the wrong index entry.
---
 pkg/col/reader_block.go  | 5 +++++
 pkg/col/reader_header.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5176a6c..1de7711 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -22,6 +22,11 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	dataOffset := blockOffset + blockHeaderSize
 	dataSize := int(blockSize) - blockHeaderSize
 
+	// The block has to hold at least the header and the layout section
+	if dataSize < blockLayoutSize {
+		return nil, nil, fmt.Errorf("invalid block size: %d", blockSize)
+	}
+
 	// Read all data after the header in one call
 	blockData, err := r.readBytesAt(dataOffset, dataSize)
 	if err != nil {
diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 12f0b96..9565bab 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -126,7 +126,7 @@ func (r *Reader) readFooter() error {
 	// Parse the block index entries
 	r.blockIndex = make([]FooterEntry, blockIndexCount)
 	for i := uint32(0); i < blockIndexCount; i++ {
-		entryOffset := i * 56
+		entryOffset := int(i) * 56
 
 		r.blockIndex[i] = FooterEntry{
 			BlockOffset: readBufferedUint64(blockIndexBuf, int(entryOffset)),
-- 
2.43.0


From 84e9504ff5d0935459a4fead6366206f7efda8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 08/16] fix: reject a global ID bitmap of a damaged size

sroar.FromBuffer asserts that its buffer has an even length and ends the process
when it does not.
---
 pkg/col/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 6617fab..d11e945 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -161,6 +161,11 @@ func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
 	}
 	bitmapSize := binary.LittleEndian.Uint32(sizeBuf)
 
+	// sroar ends the process when it is given a buffer that is not a sequence of uint16
+	if uint64(bitmapSize)+4 != r.header.BitmapSize || bitmapSize%2 != 0 {
+		return nil, fmt.Errorf("invalid bitmap size: %d", bitmapSize)
+	}
+
 	// Read the bitmap data
 	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
 	if err != nil {
-- 
2.43.0


From 9c6a66871f8cef3847eeaeff173520643b5b1f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 09/16] fix: record a block only once it is completely written

A WriteBlock call that failed left its IDs in the global ID bitmap and its
position in the block index (or, when the sync failed, the whole block), so that
a retry or the following blocks produced a file that could not be finalized or
whose bitmap named IDs that the file does not contain.
---
 pkg/col/writer_block_io.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..6ab5e08 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -70,11 +70,6 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 // writeBlockInternal is the actual implementation of WriteBlock
 // It writes the block without checking the target size
 func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
-	// Add all IDs to the global ID bitmap
-	for _, id := range ids {
-		w.globalIDs.Set(id)
-	}
-
 	// Determine if we need to use variable-length encoding
 	useVarIntForIDs := w.encodingType == EncodingVarInt ||
 		w.encodingType == EncodingVarIntID ||
@@ -107,9 +102,6 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 		return fmt.Errorf("failed to get block start position: %w", err)
 	}
 
-	// Store this position so we can refer to it later in the footer
-	w.blockPositions = append(w.blockPositions, uint64(blockStart))
-
 	// Convert int64 values to uint64 for storage
 	minValueU64 := int64ToUint64(minValue)
 	maxValueU64 := int64ToUint64(maxValue)
@@ -300,6 +292,21 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 			expectedBlockSize, blockSize-uint64(padding), blockSizeDifference)
 	}
 
+	// Sync to disk to ensure data consistency
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file: %w", err)
+	}
+
+	// The block is complete: only now does it become part of the file
+
+	// Add all IDs to the global ID bitmap
+	for _, id := range ids {
+		w.globalIDs.Set(id)
+	}
+
+	// Store this position so we can refer to it later in the footer
+	w.blockPositions = append(w.blockPositions, uint64(blockStart))
+
 	w.blockSizes = append(w.blockSizes, uint32(blockSize))
 
 	// Store block statistics for footer
@@ -315,11 +322,6 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	// Increment block count
 	w.blockCount++
 
-	// Sync to disk to ensure data consistency
-	if err := w.file.Sync(); err != nil {
-		return fmt.Errorf("failed to sync file: %w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 1a86de3913fbaf65a12825dc6e1e0ba80b4cfdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 10/16] fix: refuse sizes that do not fit their 32-bit fields

Sections, blocks or bitmaps of 4 GiB and more, and target block sizes outside
uint32, silently wrapped around, which lost data or split blocks wrongly.
---
 pkg/col/simple_writer.go   | 5 +++++
 pkg/col/writer_block_io.go | 2 +-
 pkg/col/writer_encoding.go | 7 +++++++
 pkg/col/writer_finalize.go | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 2b398db..b746518 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -2,6 +2,7 @@ package col
 
 import (
 	"fmt"
+	"math"
 	"sort"
 )
 
@@ -45,6 +46,10 @@ func (sw *SimpleWriter) SetTargetBlockSize(size int) error {
 		return fmt.Errorf("writer is already closed")
 	}
 
+	if size < 0 || uint64(size) > math.MaxUint32 {
+		return fmt.Errorf("invalid target block size: %d", size)
+	}
+
 	sw.targetBlockSize = size
 
 	// Also update the underlying writer's block size target
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 6ab5e08..d7af5ed 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -349,7 +349,7 @@ func (w *Writer) EstimateBlockSize(ids []uint64, values []int64) (uint64, error)
 
 	// Calculate total block size
 	// Block header + block layout + ID section + value section
-	totalSize := uint64(blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize)
+	totalSize := uint64(blockHeaderSize+blockLayoutSize) + uint64(idSectionSize) + uint64(valueSectionSize)
 
 	// Add padding size if needed for page alignment
 	currentPos, err := w.file.Seek(0, io.SeekCurrent)
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index ded762b..154686c 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -2,6 +2,7 @@ package col
 
 import (
 	"fmt"
+	"math"
 )
 
 // idEncoding returns the encoding that a file encoding type applies to the ID column
@@ -55,6 +56,9 @@ func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T)
 	switch encodingType {
 	case EncodingRaw, EncodingDeltaID, EncodingDeltaValue, EncodingDeltaBoth:
 		// Fixed-width encoding
+		if uint64(len(encodedData)) > math.MaxUint32/8 {
+			return nil, nil, 0, fmt.Errorf("too much data for one block: %d items", len(encodedData))
+		}
 		sectionSize = uint32(len(encodedData) * 8)
 	case EncodingVarInt, EncodingVarIntID, EncodingVarIntBoth, EncodingVarIntValue:
 		// Variable-width encoding
@@ -66,6 +70,9 @@ func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T)
 			if dataSize == 0 {
 				return nil, nil, 0, fmt.Errorf("encoded size of data at index %d is 0", i)
 			}
+			if dataSize > math.MaxUint32-sectionSize {
+				return nil, nil, 0, fmt.Errorf("too much data for one block: %d items", len(encodedData))
+			}
 			sectionSize += dataSize
 		}
 		if sectionSize == 0 && len(encodedData) > 0 {
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..1b05574 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 // writeGlobalIDBitmap writes the global ID bitmap to the file
@@ -18,6 +19,11 @@ func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
 	// The sroar bitmap is already a serialized representation
 	buf := w.globalIDs.ToBuffer()
 
+	// The size field has 32 bits
+	if uint64(len(buf)) > math.MaxUint32 {
+		return 0, 0, fmt.Errorf("global ID bitmap too large: %d bytes", len(buf))
+	}
+
 	// Write the size of the bitmap
 	if err := binary.Write(w.file, binary.LittleEndian, uint32(len(buf))); err != nil {
 		return 0, 0, fmt.Errorf("failed to write bitmap size: %w", err)
-- 
2.43.0


From 6d2387c9c2792529d45f305a6786356fd83b56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 11/16] fix: synchronise the cache of the global ID bitmap

Concurrent GetGlobalIDBitmap calls on one Reader raced on the cached bitmap.
---
 pkg/col/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index d11e945..6527747 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/weaviate/sroar"
 )
@@ -15,6 +16,7 @@ type Reader struct {
 	header         FileHeader
 	footerMeta     FooterMetadata
 	blockIndex     []FooterEntry
+	globalIDsMu    sync.Mutex // Protects globalIDs and cacheGlobalIDs
 	globalIDs      *sroar.Bitmap
 	cacheGlobalIDs bool // Whether to cache the global ID bitmap
 }
@@ -126,11 +128,17 @@ func (r *Reader) DebugInfo() string {
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
 func (r *Reader) EnableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
+
 	r.cacheGlobalIDs = true
 }
 
 // DisableGlobalIDBitmapCaching disables caching of the global ID bitmap
 func (r *Reader) DisableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
+
 	r.cacheGlobalIDs = false
 	r.globalIDs = nil // Clear any cached bitmap
 }
@@ -139,6 +147,9 @@ func (r *Reader) DisableGlobalIDBitmapCaching() {
 // If the file doesn't have a global ID bitmap, it returns an empty bitmap
 // The bitmap is cached only if caching is enabled
 func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
+
 	// If we've already loaded the bitmap and caching is enabled, return it
 	if r.globalIDs != nil && r.cacheGlobalIDs {
 		return r.globalIDs, nil
-- 
2.43.0


From bc5ed88064784903e6518cc50a05f23d6c5b375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 12/16] fix: sync the file before writing the footer metadata

The footer metadata with its magic number makes a file readable. Without a sync
in front of it, a crash could leave the metadata on disk but not all of the
bitmap, header and block index that it vouches for.
---
 pkg/col/writer_finalize.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 1b05574..0c2384d 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -167,6 +167,11 @@ func (w *Writer) Finalize() error {
 	footerSize := footerEnd - footerStart
 	footerMetaStart := footerEnd
 
+	// The footer metadata marks the file as complete: everything else has to be on disk before it
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file before footer metadata: %w", err)
+	}
+
 	// Write footer metadata
 	if err := binary.Write(w.file, binary.LittleEndian, uint64(footerSize)); err != nil {
 		return fmt.Errorf("failed to write footer size: %w", err)
-- 
2.43.0


From 31901696d2e84abd952350c577e7fc617629d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 13/16] fix: close the file when FinalizeAndClose fails to
 finalize it

A SimpleWriter whose finalization failed had no way to release its file.
---
 pkg/col/writer_finalize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 0c2384d..6b60e38 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -49,6 +49,7 @@ func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
 // FinalizeAndClose finalizes the file by writing the footer and closes the file
 func (w *Writer) FinalizeAndClose() error {
 	if err := w.Finalize(); err != nil {
+		w.file.Close()
 		return err
 	}
 	return w.file.Close()
-- 
2.43.0


From cc7df5b5b5707c52fa57888b753799a7eb7794fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 14/16] fix: reject files of an unsupported column, compression
 or encoding type

Their blocks were decoded as uncompressed raw int64 data.
---
 pkg/col/reader_header.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 9565bab..0dc284b 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -62,6 +62,15 @@ func (r *Reader) readHeader() error {
 	if r.header.Version != Version {
 		return fmt.Errorf("unsupported version: %d", r.header.Version)
 	}
+	if r.header.ColumnType != DataTypeInt64 {
+		return fmt.Errorf("unsupported column type: %d", r.header.ColumnType)
+	}
+	if r.header.CompressionType != CompressionNone {
+		return fmt.Errorf("unsupported compression type: %d", r.header.CompressionType)
+	}
+	if r.header.EncodingType > EncodingVarIntBoth {
+		return fmt.Errorf("unsupported encoding type: %d", r.header.EncodingType)
+	}
 
 	return nil
 }
-- 
2.43.0


From 9fda384cc5c85c8267163d9a292ba780c10d2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 15/16] fix: sort the IDs of a SimpleWriter block across Write
 calls

Each batch was sorted, but a block that holds several batches was not.
---
 pkg/col/simple_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index b746518..9e19137 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -140,6 +140,11 @@ func (sw *SimpleWriter) flushIfNeeded(force bool) error {
 	}
 
 	if shouldWrite {
+		// Sort across the batches of several Write calls
+		if !isSorted(sw.pendingIDs) {
+			sortByID(sw.pendingIDs, sw.pendingValues)
+		}
+
 		// Try to write all pending items
 		err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
 
-- 
2.43.0


From 963ad041f816d3f1af2e279eaf34652e42001a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 16/16] fix: exit with an error when loadtest cannot read a
 block

---
 cmd/loadtest/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 408d14b..2dbedfe 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -229,7 +229,7 @@ func runAggregations(reader *col.Reader, skipCache bool, parallel int) {
 		_, values, err := reader.GetPairs(i)
 		if err != nil {
 			fmt.Printf("Error reading block %d: %v\n", i, err)
-			return
+			os.Exit(1)
 		}
 		totalValues += int64(len(values))
 	}
-- 
2.43.0

