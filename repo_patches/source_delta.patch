From 094684ebdbd93f78296a840324a976bc0e11960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:17 +0000
Subject: [PATCH 01/81] fix: direct string and blob packing no longer replaces
 a fixed buffer

The direct functions as_pack_str() and as_pack_bytes() packed their header as
if the packer could grow. When the header did not fit, the caller's buffer was
moved into the packer's block list and a new one allocated, although the caller
does not expect or free either. They now report failure like the other direct
functions.
---
 src/main/aerospike/as_msgpack.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b4e6fbf..a1af44b 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -476,35 +476,35 @@ pack_as_double(as_packer *pk, const as_double *d)
 }
 
 static int
-pack_string_header(as_packer *pk, uint32_t size)
+pack_string_header(as_packer *pk, uint32_t size, bool resize)
 {
 	if (size < 32) {
-		return pack_byte(pk, (uint8_t)(0xa0 | size), true);
+		return pack_byte(pk, (uint8_t)(0xa0 | size), resize);
 	}
 
 	if (size < 256) {
-		return pack_type_uint8(pk, 0xd9, (uint8_t)size, true);
+		return pack_type_uint8(pk, 0xd9, (uint8_t)size, resize);
 	}
 
 	if (size < 65536) {
-		return pack_type_uint16(pk, 0xda, (uint16_t)size, true);
+		return pack_type_uint16(pk, 0xda, (uint16_t)size, resize);
 	}
 
-	return pack_type_uint32(pk, 0xdb, size, true);
+	return pack_type_uint32(pk, 0xdb, size, resize);
 }
 
 static inline int
-pack_byte_array_header(as_packer *pk, uint32_t size)
+pack_byte_array_header(as_packer *pk, uint32_t size, bool resize)
 {
 	// Use string header codes for byte arrays.
-	return pack_string_header(pk, size);
+	return pack_string_header(pk, size, resize);
 }
 
 static int
 pack_string(as_packer *pk, as_string *s)
 {
 	uint32_t length = (uint32_t)as_string_len(s);
-	int rc = pack_string_header(pk, length + 1);
+	int rc = pack_string_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_STRING, true);
@@ -521,7 +521,7 @@ static int
 pack_geojson(as_packer *pk, as_geojson *s)
 {
 	uint32_t length = (uint32_t)as_geojson_len(s);
-	int rc = pack_byte_array_header(pk, length + 1);
+	int rc = pack_byte_array_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_GEOJSON, true);
@@ -537,7 +537,7 @@ pack_geojson(as_packer *pk, as_geojson *s)
 static int
 pack_bytes(as_packer *pk, const as_bytes *b)
 {
-	int rc = pack_byte_array_header(pk, b->size + 1);
+	int rc = pack_byte_array_header(pk, b->size + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, b->type, true);
@@ -1354,10 +1354,10 @@ as_pack_double(as_packer *pk, double val)
 int
 as_pack_bytes(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_byte_array_header(pk, sz + 1);
+	int rc = pack_byte_array_header(pk, sz + 1, false);
 
 	if (rc == 0) {
-		rc = pack_byte(pk, AS_BYTES_BLOB, true);
+		rc = pack_byte(pk, AS_BYTES_BLOB, false);
 	}
 
 	if (rc == 0) {
@@ -1393,7 +1393,7 @@ as_pack_bin_size(uint32_t buf_sz)
 int
 as_pack_str(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_string_header(pk, sz);
+	int rc = pack_string_header(pk, sz, false);
 
 	if (rc == 0 && buf) {
 		return pack_append(pk, buf, sz, false);
-- 
2.43.0


From b09e0a59a27963002a8515e1abc4b697de3787ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:34 +0000
Subject: [PATCH 02/81] fix: as_unpack_val never reads past the end of its
 input

Truncated scalars, blob lengths and element counts were trusted, so
decoding damaged bytes read outside the buffer or allocated for counts
the input could not hold.
---
 src/main/aerospike/as_msgpack.c | 80 ++++++++++++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index a1af44b..77ee7f4 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -844,6 +844,13 @@ as_pack_val(as_packer *pk, const as_val *val)
  * UNPACK FUNCTIONS
  ******************************************************************************/
 
+// Check that at least n more bytes are available.
+static inline bool
+unpack_has_bytes(const as_unpacker *pk, uint32_t n)
+{
+	return pk->offset <= pk->length && pk->length - pk->offset >= n;
+}
+
 static inline uint16_t
 extract_uint16(as_unpacker *pk)
 {
@@ -899,6 +906,10 @@ unpack_nil(as_val **v)
 static inline int
 unpack_ext(as_unpacker *pk, uint8_t type, as_val **v)
 {
+	if (! unpack_has_bytes(pk, 2)) {
+		return -1;
+	}
+
 	uint8_t ext_type = pk->buffer[pk->offset++];
 	uint8_t data = pk->buffer[pk->offset++];
 
@@ -942,6 +953,10 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	unsigned char type = 0;
 
+	if (! unpack_has_bytes(pk, size)) {
+		return -5;
+	}
+
 	if (size != 0) {
 		type = pk->buffer[pk->offset++];
 		size--;
@@ -999,6 +1014,11 @@ unpack_list(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	uint8_t flags = 0;
 
+	// Each element needs at least one byte.
+	if (! unpack_has_bytes(pk, size)) {
+		return -4;
+	}
+
 	// Skip ext element key which is only at the start for metadata.
 	if (size != 0 && as_unpack_peek_is_ext(pk)) {
 		as_msgpack_ext ext;
@@ -1118,6 +1138,11 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 {
 	uint8_t flags = 0;
 
+	// Each key and each value needs at least one byte.
+	if (ele_count > pk->length / 2 || ! unpack_has_bytes(pk, 2 * ele_count)) {
+		return -6;
+	}
+
 	// Skip ext element key which is only at the start for metadata.
 	if (ele_count != 0 && as_unpack_peek_is_ext(pk)) {
 		as_msgpack_ext ext;
@@ -1142,9 +1167,12 @@ int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
 	if (as_unpack_peek_is_ext(pk)) {
-		as_unpack_size(pk);
 		*val = NULL;
-		return 0;
+		return as_unpack_size(pk) < 0 ? -3 : 0;
+	}
+
+	if (pk->offset >= pk->length) {
+		return -1;
 	}
 
 	uint8_t type = pk->buffer[pk->offset++];
@@ -1159,48 +1187,96 @@ as_unpack_val(as_unpacker *pk, as_val **val)
 		return unpack_boolean(false, val);
 
 	case 0xca: // float
+		if (! unpack_has_bytes(pk, 4)) {
+			return -3;
+		}
 		return unpack_double_val((double)extract_float(pk), val);
 	case 0xcb: // double
+		if (! unpack_has_bytes(pk, 8)) {
+			return -3;
+		}
 		return unpack_double_val(extract_double(pk), val);
 
 	case 0xd0: // signed 8 bit integer
+		if (! unpack_has_bytes(pk, 1)) {
+			return -3;
+		}
 		return unpack_integer_val((int64_t)(int8_t)pk->buffer[pk->offset++],
 				val);
 	case 0xcc: // unsigned 8 bit integer
+		if (! unpack_has_bytes(pk, 1)) {
+			return -3;
+		}
 		return unpack_integer_val((int64_t)pk->buffer[pk->offset++], val);
 
 	case 0xd1: // signed 16 bit integer
+		if (! unpack_has_bytes(pk, 2)) {
+			return -3;
+		}
 		return unpack_integer_val((int64_t)(int16_t)extract_uint16(pk), val);
 	case 0xcd: // unsigned 16 bit integer
+		if (! unpack_has_bytes(pk, 2)) {
+			return -3;
+		}
 		return unpack_integer_val((int64_t)extract_uint16(pk), val);
 
 	case 0xd2: // signed 32 bit integer
+		if (! unpack_has_bytes(pk, 4)) {
+			return -3;
+		}
 		return unpack_integer_val((int64_t)(int32_t)extract_uint32(pk), val);
 	case 0xce: // unsigned 32 bit integer
+		if (! unpack_has_bytes(pk, 4)) {
+			return -3;
+		}
 		return unpack_integer_val((int64_t)extract_uint32(pk), val);
 
 	case 0xd3: // signed 64 bit integer
 	case 0xcf: // unsigned 64 bit integer
+		if (! unpack_has_bytes(pk, 8)) {
+			return -3;
+		}
 		return unpack_integer_val((int64_t)extract_uint64(pk), val);
 
 	case 0xc4:
 	case 0xd9: // string/raw bytes with 8 bit header
+		if (! unpack_has_bytes(pk, 1)) {
+			return -3;
+		}
 		return unpack_blob(pk, (uint32_t)pk->buffer[pk->offset++], val);
 	case 0xc5:
 	case 0xda: // string/raw bytes with 16 bit header
+		if (! unpack_has_bytes(pk, 2)) {
+			return -3;
+		}
 		return unpack_blob(pk, (uint32_t)extract_uint16(pk), val);
 	case 0xc6:
 	case 0xdb: // string/raw bytes with 32 bit header
+		if (! unpack_has_bytes(pk, 4)) {
+			return -3;
+		}
 		return unpack_blob(pk, extract_uint32(pk), val);
 
 	case 0xdc: // list with 16 bit header
+		if (! unpack_has_bytes(pk, 2)) {
+			return -3;
+		}
 		return unpack_list(pk, (uint32_t)extract_uint16(pk), val);
 	case 0xdd: // list with 32 bit header
+		if (! unpack_has_bytes(pk, 4)) {
+			return -3;
+		}
 		return unpack_list(pk, extract_uint32(pk), val);
 
 	case 0xde: // map with 16 bit header
+		if (! unpack_has_bytes(pk, 2)) {
+			return -3;
+		}
 		return unpack_map(pk, (uint32_t)extract_uint16(pk), val);
 	case 0xdf: // map with 32 bit header
+		if (! unpack_has_bytes(pk, 4)) {
+			return -3;
+		}
 		return unpack_map(pk, extract_uint32(pk), val);
 
 	case 0xd4: // fixext 1
-- 
2.43.0


From bb79d002c54fc4c493cc6d480fb9aae67d7b6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:03 +0000
Subject: [PATCH 03/81] fix: skipping and peeking never read past the end of
 their input

as_unpack_size, as_unpack_peek_type, as_unpack_ext, as_unpack_str/bin,
as_unpack_boolean and as_unpack_nil trusted lengths found in the data,
so truncated input was read out of bounds or reported as complete.
---
 src/main/aerospike/as_msgpack.c | 153 ++++++++++++++++++++------------
 1 file changed, 98 insertions(+), 55 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 77ee7f4..27fb844 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -846,11 +846,22 @@ as_pack_val(as_packer *pk, const as_val *val)
 
 // Check that at least n more bytes are available.
 static inline bool
-unpack_has_bytes(const as_unpacker *pk, uint32_t n)
+unpack_has_bytes(const as_unpacker *pk, uint64_t n)
 {
 	return pk->offset <= pk->length && pk->length - pk->offset >= n;
 }
 
+static inline bool
+unpack_skip_bytes(as_unpacker *pk, uint64_t n)
+{
+	if (! unpack_has_bytes(pk, n)) {
+		return false;
+	}
+
+	pk->offset += (uint32_t)n;
+	return true;
+}
+
 static inline uint16_t
 extract_uint16(as_unpacker *pk)
 {
@@ -1139,7 +1150,7 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 	uint8_t flags = 0;
 
 	// Each key and each value needs at least one byte.
-	if (ele_count > pk->length / 2 || ! unpack_has_bytes(pk, 2 * ele_count)) {
+	if (! unpack_has_bytes(pk, 2 * (uint64_t)ele_count)) {
 		return -6;
 	}
 
@@ -1740,6 +1751,19 @@ bytes_internal_type_to_as_val_t(uint8_t type)
 	return AS_BYTES;
 }
 
+static inline as_val_t
+peek_blob_type(const as_unpacker *pk)
+{
+	as_unpacker blob = *pk;
+
+	// An empty blob has no type byte and is considered AS_BYTES.
+	if (as_unpack_blob_size(&blob) <= 0 || ! unpack_has_bytes(&blob, 1)) {
+		return AS_BYTES;
+	}
+
+	return bytes_internal_type_to_as_val_t(blob.buffer[blob.offset]);
+}
+
 as_val_t
 as_unpack_peek_type(const as_unpacker *pk)
 {
@@ -1772,22 +1796,16 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_DOUBLE;
 
 	case 0xc4:
-	case 0xd9: { // string/raw bytes with 8 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 2];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xd9: // string/raw bytes with 8 bit header
+		return peek_blob_type(pk);
 
 	case 0xc5:
-	case 0xda: { // string/raw bytes with 16 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 3];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xda: // string/raw bytes with 16 bit header
+		return peek_blob_type(pk);
 
 	case 0xc6:
-	case 0xdb: { // string/raw bytes with 32 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 5];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xdb: // string/raw bytes with 32 bit header
+		return peek_blob_type(pk);
 
 	case 0xdc: // list with 16 bit header
 	case 0xdd: // list with 32 bit header
@@ -1798,6 +1816,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_MAP;
 
 	case 0xd4: { // fixext1
+		if (! unpack_has_bytes(pk, 3)) {
+			return AS_CMP_EXT;
+		}
+
 		uint8_t ext_type = pk->buffer[pk->offset + 1];
 
 		if (ext_type == ASVAL_CMP_EXT_TYPE) {
@@ -1824,8 +1846,7 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-			uint8_t type1 = pk->buffer[pk->offset + 1];
-			return bytes_internal_type_to_as_val_t(type1);
+			return peek_blob_type(pk);
 		}
 
 		if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
@@ -1944,48 +1965,53 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	case 0xd0: // signed 8 bit integer
 	case 0xcc: // unsigned 8 bit integer
-		pk->offset++;
-		return 1 + 1;
+		return unpack_skip_bytes(pk, 1) ? 1 + 1 : -9;
 
 	case 0xd1: // signed 16 bit integer
 	case 0xcd: // unsigned 16 bit integer
-		pk->offset += 2;
-		return 1 + 2;
+		return unpack_skip_bytes(pk, 2) ? 1 + 2 : -9;
 
 	case 0xca: // float
 	case 0xd2: // signed 32 bit integer
 	case 0xce: // unsigned 32 bit integer
-		pk->offset += 4;
-		return 1 + 4;
+		return unpack_skip_bytes(pk, 4) ? 1 + 4 : -9;
 
 	case 0xcb: // double
 	case 0xd3: // signed 64 bit integer
 	case 0xcf: // unsigned 64 bit integer
-		pk->offset += 8;
-		return 1 + 8;
+		return unpack_skip_bytes(pk, 8) ? 1 + 8 : -9;
 
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
+		if (! unpack_has_bytes(pk, 1)) {
+			return -9;
+		}
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += length;
-		return 1 + 1 + length;
+		return unpack_skip_bytes(pk, length) ? 1 + 1 + (int64_t)length : -9;
 	}
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
+		if (! unpack_has_bytes(pk, 2)) {
+			return -9;
+		}
 		uint16_t length = extract_uint16(pk);
-		pk->offset += length;
-		return 1 + 2 + length;
+		return unpack_skip_bytes(pk, length) ? 1 + 2 + (int64_t)length : -9;
 	}
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
+		if (! unpack_has_bytes(pk, 4)) {
+			return -9;
+		}
 		uint32_t length = extract_uint32(pk);
-		pk->offset += length;
-		return 1 + 4 + length;
+		return unpack_skip_bytes(pk, length) ? 1 + 4 + (int64_t)length : -9;
 	}
 
 	case 0xdc: { // list with 16 bit header
+		if (! unpack_has_bytes(pk, 2)) {
+			return -9;
+		}
 		uint16_t length = extract_uint16(pk);
 		int64_t ret = unpack_list_elements_size(pk, length, depth);
 		if (ret < 0) {
@@ -1995,6 +2021,9 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	}
 
 	case 0xdd: { // list with 32 bit header
+		if (! unpack_has_bytes(pk, 4)) {
+			return -9;
+		}
 		uint32_t length = extract_uint32(pk);
 		int64_t ret = unpack_list_elements_size(pk, length, depth);
 		if (ret < 0) {
@@ -2004,6 +2033,9 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	}
 
 	case 0xde: { // map with 16 bit header
+		if (! unpack_has_bytes(pk, 2)) {
+			return -9;
+		}
 		uint16_t length = extract_uint16(pk);
 		int64_t ret = unpack_map_elements_size(pk, length, depth);
 		if (ret < 0) {
@@ -2013,6 +2045,9 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	}
 
 	case 0xdf: { // map with 32 bit header
+		if (! unpack_has_bytes(pk, 4)) {
+			return -9;
+		}
 		uint32_t length = extract_uint32(pk);
 		int64_t ret = unpack_map_elements_size(pk, length, depth);
 		if (ret < 0) {
@@ -2022,34 +2057,38 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	}
 
 	case 0xd4: // fixext 1
-		pk->offset += 1 + 1;
-		return 1 + 1 + 1;
+		return unpack_skip_bytes(pk, 1 + 1) ? 1 + 1 + 1 : -9;
 	case 0xd5: // fixext 2
-		pk->offset += 1 + 2;
-		return 1 + 1 + 2;
+		return unpack_skip_bytes(pk, 1 + 2) ? 1 + 1 + 2 : -9;
 	case 0xd6: // fixext 4
-		pk->offset += 1 + 4;
-		return 1 + 1 + 4;
+		return unpack_skip_bytes(pk, 1 + 4) ? 1 + 1 + 4 : -9;
 	case 0xd7: // fixext 8
-		pk->offset += 1 + 8;
-		return 1 + 1 + 8;
+		return unpack_skip_bytes(pk, 1 + 8) ? 1 + 1 + 8 : -9;
 	case 0xd8: // fixext 16
-		pk->offset += 1 + 16;
-		return 1 + 1 + 16;
+		return unpack_skip_bytes(pk, 1 + 16) ? 1 + 1 + 16 : -9;
 	case 0xc7: { // ext 8
+		if (! unpack_has_bytes(pk, 1)) {
+			return -9;
+		}
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += 1 + length;
-		return 1 + 1 + 1 + length;
+		return unpack_skip_bytes(pk, 1 + (uint64_t)length) ?
+				1 + 1 + 1 + (int64_t)length : -9;
 	}
 	case 0xc8: { // ext 16
+		if (! unpack_has_bytes(pk, 2)) {
+			return -9;
+		}
 		uint16_t length = extract_uint16(pk);
-		pk->offset += 1 + length;
-		return 1 + 2 + 1 + length;
+		return unpack_skip_bytes(pk, 1 + (uint64_t)length) ?
+				1 + 2 + 1 + (int64_t)length : -9;
 	}
 	case 0xc9: { // ext 32
+		if (! unpack_has_bytes(pk, 4)) {
+			return -9;
+		}
 		uint32_t length = extract_uint32(pk);
-		pk->offset += 1 + length;
-		return 1 + 4 + 1 + length;
+		return unpack_skip_bytes(pk, 1 + (uint64_t)length) ?
+				1 + 4 + 1 + (int64_t)length : -9;
 	}
 	default:
 		break;
@@ -2057,8 +2096,7 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
 		int length = type & 0x1f;
-		pk->offset += length;
-		return 1 + length;
+		return unpack_skip_bytes(pk, (uint32_t)length) ? 1 + length : -9;
 	}
 
 	if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
@@ -2091,6 +2129,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 int
 as_unpack_boolean(as_unpacker *pk, bool *value)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	if (type == 0xc3 || type == 0xc2) {
@@ -2104,6 +2146,10 @@ as_unpack_boolean(as_unpacker *pk, bool *value)
 int
 as_unpack_nil(as_unpacker *pk)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	return type == 0xc0 ? 0 : -1;
@@ -2311,9 +2357,7 @@ unpack_str_bin(as_unpacker *pk, uint32_t *sz_r)
 
 	const uint8_t *buf = &pk->buffer[pk->offset];
 
-	pk->offset += *sz_r;
-
-	if (pk->offset > pk->length) {
+	if (! unpack_skip_bytes(pk, *sz_r)) {
 		return NULL;
 	}
 
@@ -2336,7 +2380,7 @@ int
 as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 {
 	// Need at least 3 bytes.
-	if (pk->length - pk->offset < 3) {
+	if (! unpack_has_bytes(pk, 3)) {
 		return -1;
 	}
 
@@ -2375,7 +2419,7 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		return -3;
 	}
 
-	if (pk->length - pk->offset < 1 + ext->size) {
+	if (! unpack_has_bytes(pk, 1 + (uint64_t)ext->size)) {
 		return -4;
 	}
 
@@ -2542,13 +2586,12 @@ msgpack_get_blob_len(as_unpacker *pk)
 {
 	int64_t len = as_unpack_blob_size(pk);
 
-	if (len == 0) {
+	if (len <= 0 || ! unpack_skip_bytes(pk, 1)) {
 		return -1;
 	}
 
 	// Adjust for 1 byte type.
 	len--;
-	pk->offset++;
 
 	int64_t left = pk->length - pk->offset;
 
-- 
2.43.0


From 400f5c545461eef3c05da2f5822b359160a1bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:39 +0000
Subject: [PATCH 04/81] fix: packed map comparison skips whole entries

When two packed maps differed, only one item per entry was skipped, and
the ordering entry of a sorted map was counted twice, so the cursors
ended in the middle of a map or the comparison failed.
---
 src/main/aerospike/as_msgpack.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 27fb844..7f93f27 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2815,11 +2815,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 	}
 
 	if (len1 != len2) {
-		if (! msgpack_skip(pk1, len1)) {
+		if (! msgpack_skip(pk1, 2 * len1)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
-		if (! msgpack_skip(pk2, len2)) {
+		if (! msgpack_skip(pk2, 2 * len2)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
@@ -2842,17 +2842,19 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		if (ret != MSGPACK_COMPARE_EQUAL) {
-			if (! msgpack_skip(pk1, len1 - 1)) {
+			if (! msgpack_skip(pk1, 2 * (len1 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_skip(pk2, len2 - 1)) {
+			if (! msgpack_skip(pk2, 2 * (len2 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
 			return ret;
 		}
 
+		len1--;
+		len2--;
 		minlen--;
 	}
 
-- 
2.43.0


From c1fec6801c5751f0e0f6d7b35e3121a24ff85f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:00 +0000
Subject: [PATCH 05/81] fix: value comparison agrees with packed comparison

as_val_cmp ignored map values, ranked a wildcard by type instead of
matching it, and failed on two infinity markers.
---
 src/main/aerospike/as_msgpack.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 7f93f27..c540a3e 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -670,6 +670,20 @@ as_map_cmp(const as_map* map1, const as_map* map2)
 		if (cmp != MSGPACK_COMPARE_EQUAL) {
 			return cmp;
 		}
+
+		as_val* v1 = as_pair_2(p1);
+		as_val* v2 = as_pair_2(p2);
+
+		if (as_val_type(v1) == AS_CMP_WILDCARD ||
+				as_val_type(v2) == AS_CMP_WILDCARD) {
+			return MSGPACK_COMPARE_EQUAL;
+		}
+
+		cmp = as_val_cmp(v1, v2);
+
+		if (cmp != MSGPACK_COMPARE_EQUAL) {
+			return cmp;
+		}
 	}
 
 	return MSGPACK_COMPARE_EQUAL;
@@ -681,14 +695,15 @@ as_val_cmp(const as_val* v1, const as_val* v2)
 	as_val_t t1 = as_val_type(v1);
 	as_val_t t2 = as_val_type(v2);
 
-	MSGPACK_COMPARE_RET_LESS_OR_GREATER(t1, t2);
-
 	if (t1 == AS_CMP_WILDCARD || t2 == AS_CMP_WILDCARD) {
 		return MSGPACK_COMPARE_EQUAL;
 	}
 
+	MSGPACK_COMPARE_RET_LESS_OR_GREATER(t1, t2);
+
 	switch (t1) {
 	case AS_NIL:
+	case AS_CMP_INF:
 		break;
 	case AS_BOOLEAN:
 		MSGPACK_COMPARE_RET_LESS_OR_GREATER(
-- 
2.43.0


From c9354af0b51eb7c0c786048adfd02dc9899099c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:39 +0000
Subject: [PATCH 06/81] fix: deep packed comparison handles length differences,
 wildcards and map ordering entries

Past 256 levels the outermost list was unwound twice when lengths
differed or a wildcard ended it, and sorted maps could not be compared.
---
 src/main/aerospike/as_msgpack.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index c540a3e..16413ad 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2949,14 +2949,15 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 {
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
-			}
-
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// Caller unwinds the last state.
 				return state->default_compare_type;
 			}
 
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
+			}
+
 			uint32_t len1 = state->len1;
 			uint32_t len2 = state->len2;
 
@@ -3024,14 +3025,15 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
-			}
-
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// Caller unwinds the last state.
 				return MSGPACK_COMPARE_EQUAL;
 			}
 
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
+			}
+
 			state = msgpack_parse_memblock_prev(block);
 			continue;
 		}
@@ -3084,6 +3086,8 @@ msgpack_compare_type(as_unpacker *pk1, as_unpacker *pk2, as_val_t type,
 		return msgpack_compare_double(pk1, pk2);
 	case AS_GEOJSON:
 		return msgpack_compare_blob(pk1, pk2);
+	case AS_CMP_EXT:
+		return compare_ext(pk1, pk2);
 	case AS_CMP_WILDCARD:
 	case AS_CMP_INF:
 		pk1->offset += 3;
-- 
2.43.0


From 0a660c26c1a9f0bfad6c9720e8af98dd12eb188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:08 +0000
Subject: [PATCH 07/81] fix: comparing deeply nested packed maps no longer
 exhausts the stack

Map comparison never counted its nesting depth, so it kept recursing
where list comparison switches to its heap based walk.
---
 src/main/aerospike/as_msgpack.c | 56 ++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 16413ad..62e9a33 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2690,12 +2690,12 @@ msgpack_compare_unwind(as_unpacker *pk1, as_unpacker *pk2,
 	}
 	else if (state->type == AS_MAP) {
 		if (! msgpack_skip(pk1,
-				2 * (state->len1 - state->index) - state->map_pair)) {
+				2 * (size_t)(state->len1 - state->index) - state->map_pair)) {
 			return false;
 		}
 
 		if (! msgpack_skip(pk2,
-				2 * (state->len2 - state->index) - state->map_pair)) {
+				2 * (size_t)(state->len2 - state->index) - state->map_pair)) {
 			return false;
 		}
 	}
@@ -2728,30 +2728,45 @@ msgpack_compare_unwind_all(as_unpacker *pk1, as_unpacker *pk2,
 	return true;
 }
 
+// Compare containers without recursion.
 static msgpack_compare_t
-msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
+msgpack_compare_deep(as_unpacker *pk1, as_unpacker *pk2,
+		bool (*cmp_init)(msgpack_parse_state *, as_unpacker *, as_unpacker *))
 {
-	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
-		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
-		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
+	msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+	msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
-		if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
-			msgpack_parse_memblock_destroy(block);
-			return MSGPACK_COMPARE_ERROR;
-		}
+	if (! cmp_init(state, pk1, pk2)) {
+		msgpack_parse_memblock_destroy(block);
+		return MSGPACK_COMPARE_ERROR;
+	}
 
-		msgpack_compare_t ret = msgpack_compare_non_recursive(pk1, pk2, &block,
-				state);
+	msgpack_compare_t ret;
 
-		if (ret == MSGPACK_COMPARE_ERROR ||
-				! msgpack_compare_unwind_all(pk1, pk2, &block)) {
-			msgpack_parse_memblock_destroy(block);
-			return MSGPACK_COMPARE_ERROR;
-		}
+	if (state->type == AS_MAP && state->len1 != state->len2) {
+		ret = state->default_compare_type;
+	}
+	else {
+		ret = msgpack_compare_non_recursive(pk1, pk2, &block, state);
+	}
 
+	if (ret == MSGPACK_COMPARE_ERROR ||
+			! msgpack_compare_unwind_all(pk1, pk2, &block)) {
 		msgpack_parse_memblock_destroy(block);
+		return MSGPACK_COMPARE_ERROR;
+	}
 
-		return ret;
+	msgpack_parse_memblock_destroy(block);
+
+	return ret;
+}
+
+static msgpack_compare_t
+msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
+{
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		return msgpack_compare_deep(pk1, pk2,
+				msgpack_parse_state_list_cmp_init);
 	}
 
 	int64_t len1 = as_unpack_list_header_element_count(pk1);
@@ -2821,6 +2836,11 @@ compare_ext(as_unpacker *pk1, as_unpacker *pk2)
 static msgpack_compare_t
 msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		return msgpack_compare_deep(pk1, pk2,
+				msgpack_parse_state_map_cmp_init);
+	}
+
 	int64_t len1 = as_unpack_map_header_element_count(pk1);
 	int64_t len2 = as_unpack_map_header_element_count(pk2);
 	int64_t minlen = (len1 < len2) ? len1 : len2;
-- 
2.43.0


From de39da9c1938bf631caff3b9628eeaea463190af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:35 +0000
Subject: [PATCH 08/81] fix: skipping deeply nested damaged data does not leak
 its work blocks

---
 src/main/aerospike/as_msgpack.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 62e9a33..94f5a8c 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -107,7 +107,7 @@ static inline int pack_ext_header_internal(as_packer *pk, uint32_t content_size,
 static int64_t unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static int64_t unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static inline as_val_t bytes_internal_type_to_as_val_t(uint8_t type);
-static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block, msgpack_parse_state *state);
+static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block, msgpack_parse_state *state);
 static inline int64_t unpack_size_internal(as_unpacker *pk, uint32_t depth);
 static inline const uint8_t *unpack_str_bin(as_unpacker *pk, uint32_t *sz_r);
 
@@ -1685,7 +1685,7 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_LIST;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 
 		msgpack_parse_memblock_destroy(block);
 
@@ -1724,7 +1724,7 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_MAP;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 		msgpack_parse_memblock_destroy(block);
 
 		return ret;
@@ -1899,18 +1899,18 @@ as_unpack_buf_peek_type(const uint8_t *buf, uint32_t size)
 }
 
 static int64_t
-unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
+unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		msgpack_parse_state *state)
 {
 	int start = pk->offset;
 
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_parse_memblock_has_prev(block)) {
+			if (! msgpack_parse_memblock_has_prev(*block)) {
 				return (int64_t)(pk->offset - start);
 			}
 
-			state = msgpack_parse_memblock_prev(&block);
+			state = msgpack_parse_memblock_prev(block);
 		}
 
 		if (state->type == AS_LIST) {
@@ -1936,7 +1936,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_LIST ) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
@@ -1946,7 +1946,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_MAP) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
-- 
2.43.0


From 3b121a905057647234b845052eb9f68af06c7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:44 +0000
Subject: [PATCH 09/81] fix: reserving an allocated boolean takes a reference

as_val_reserve() did nothing for booleans while as_val_destroy() dropped a
reference, so a reserved as_boolean_new() value was freed by the first of its
two holders. Only the as_true and as_false constants (count 0) are not counted.
---
 src/main/aerospike/as_val.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_val.c b/src/main/aerospike/as_val.c
index 87a91ef..48702f6 100644
--- a/src/main/aerospike/as_val.c
+++ b/src/main/aerospike/as_val.c
@@ -48,6 +48,7 @@ static uint32_t as_val_hashcode_noop(const as_val *);
 static char *   as_val_tostring_noop(const as_val *);
 static as_val * as_val_reserve_noop(as_val * v);
 static as_val * as_val_reserve_count(as_val * v);
+static as_val * as_val_reserve_boolean(as_val * v);
 
 /******************************************************************************
  *	VARIABLES
@@ -107,7 +108,7 @@ static const as_val_hashcode_callback as_val_hashcode_callbacks[] = {
 static const as_val_reserve_callback as_val_reserve_callbacks[] = {
 	[AS_UNKNOWN]	= as_val_reserve_noop,
 	[AS_NIL]		= as_val_reserve_noop,
-	[AS_BOOLEAN]	= as_val_reserve_noop,
+	[AS_BOOLEAN]	= as_val_reserve_boolean,
 	[AS_INTEGER]	= as_val_reserve_count,
 	[AS_STRING]		= as_val_reserve_count,
 	[AS_BYTES]		= as_val_reserve_count,
@@ -142,6 +143,15 @@ static as_val * as_val_reserve_count(as_val * v)
 	return v;
 }
 
+static as_val * as_val_reserve_boolean(as_val * v)
+{
+	// as_true and as_false are constants, marked by a zero count.
+	if (as_load_uint32(&v->count) != 0) {
+		as_incr_uint32(&v->count);
+	}
+	return v;
+}
+
 static uint32_t as_val_hashcode_noop(const as_val * v)
 { 
 	return 0;
-- 
2.43.0


From 3b9810b265c33a5cf37d80107807a21845f3adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:44 +0000
Subject: [PATCH 10/81] fix: as_val_val_destroy reads the reference count
 atomically

The plain read raced with other holders releasing the same value.
---
 src/main/aerospike/as_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_val.c b/src/main/aerospike/as_val.c
index 48702f6..032a20f 100644
--- a/src/main/aerospike/as_val.c
+++ b/src/main/aerospike/as_val.c
@@ -170,7 +170,7 @@ as_val * as_val_val_reserve(as_val * v)
 
 as_val * as_val_val_destroy(as_val * v)
 {
-	if (v == NULL || !v->count) {
+	if (v == NULL || as_load_uint32(&v->count) == 0) {
 		return v;
 	}
 
-- 
2.43.0


From 4628def1fc0c776aeabfc7824d63a0d4601e378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:44 +0000
Subject: [PATCH 11/81] fix: cf_rc_releaseandfree orders the free after other
 releases

The last release freed the object without an acquire barrier, unlike
cf_rc_release().
---
 src/main/citrusleaf/cf_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 745c8e1..e7e6f49 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -130,6 +130,8 @@ cf_rc_releaseandfree(void* addr)
 	uint32_t rc = as_aaf_uint32_rls(&head->count, -1);
 
 	if (rc == 0) {
+		// Other holders' accesses must come before the free.
+		as_fence_acq();
 		free(head);
 	}
 
-- 
2.43.0


From e6165c74029e57ee691295a7d619299e869b82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:44 +0000
Subject: [PATCH 12/81] fix: as_result_destroy orders destruction after other
 releases

The count was dropped with relaxed ordering, so the last holder could destroy
the value before another holder's accesses were complete.
---
 src/main/aerospike/as_result.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 5139105..06a7f2e 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -48,7 +48,10 @@ as_result * as_result_reserve(as_result * r) {
 
 void as_result_destroy(as_result *r) {
     // if we reach the last reference, call the destructor, and free
-	if (as_aaf_uint32(&r->count, -1) == 0) {
+	if (as_aaf_uint32_rls(&r->count, -1) == 0) {
+		// Destroying the value requires an 'acquire' barrier.
+		as_fence_acq();
+
         if (r->value) {
             as_val_destroy(r->value); 
             r->value = NULL;
-- 
2.43.0


From e6d65fc4a5690b203093212cc88c3d0b253281cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:51 +0000
Subject: [PATCH 13/81] fix: as_arraylist_tail returns the remaining elements

The new list copied from itself, past its end, and its size was never set.
---
 src/main/aerospike/as_arraylist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 230bdfd..397bc82 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -434,10 +434,11 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
 			as_val_reserve(list->elements[i]);
-			list2->elements[j] = list2->elements[i];
+			list2->elements[j] = list->elements[i];
 		}
 		else {
 			list2->elements[j] = 0;
-- 
2.43.0


From 8cb436b3084d8b82e763a63a1cbd10d16e81703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:51 +0000
Subject: [PATCH 14/81] fix: concatenating a list with itself appends it once

The loop bound grew with every copied element, so the copy ran past the
element array.
---
 src/main/aerospike/as_arraylist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 397bc82..80cd395 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -385,13 +385,15 @@ as_arraylist_remove(as_arraylist* list, uint32_t index)
 int
 as_arraylist_concat(as_arraylist* list, const as_arraylist* list2)
 {
-	int rc = as_arraylist_ensure(list, list2->size);
+	// The lists may be the same list, which grows while it is being copied.
+	uint32_t size2 = list2->size;
+	int rc = as_arraylist_ensure(list, size2);
 
 	if (rc != AS_ARRAYLIST_OK) {
 		return rc;
 	}
 
-	for (uint32_t i = 0; i < list2->size; i++) {
+	for (uint32_t i = 0; i < size2; i++) {
 		if (list2->elements[i]) {
 			as_val_reserve(list2->elements[i]);
 		}
-- 
2.43.0


From 5320468fadac0fd2942e77cbd58c372d537286f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:51 +0000
Subject: [PATCH 15/81] fix: as_arraylist_head of an empty list is NULL

A list created without capacity has no element array to read.
---
 src/main/aerospike/as_arraylist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 80cd395..7ba66d9 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -426,7 +426,7 @@ as_arraylist_trim(as_arraylist* list, uint32_t index)
 as_val*
 as_arraylist_head(const as_arraylist* list)
 {
-	return list->elements[0];
+	return as_arraylist_get(list, 0);
 }
 
 as_arraylist*
-- 
2.43.0


From 84ba30f0f3880a0438cab2cfcb56a4574388e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:51 +0000
Subject: [PATCH 16/81] fix: list growth arithmetic does not overflow

Writing at index UINT32_MAX, or growing with a large block size, wrapped the
computed capacity, and the element was stored outside the array.
---
 src/main/aerospike/as_arraylist.c | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 7ba66d9..0c99d2d 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -110,19 +110,30 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 {
 	// Check for capacity (in terms of elements, NOT size in bytes), and if we
 	// need to allocate more, do a realloc.
-	if ((list->size + delta) > list->capacity) {
+	uint64_t new_size = (uint64_t)list->size + delta;
+
+	if (new_size > list->capacity) {
 		// by convention - we allocate more space ONLY when the unit of
 		// (new) allocation is > 0.
 		if (list->block_size == 0) {
 			return AS_ARRAYLIST_ERR_MAX;
 		}
 		// Compute how much room we're missing for the new stuff
-		int new_room = (list->size + delta) - list->capacity;
+		uint64_t new_room = new_size - list->capacity;
 		// Compute new capacity in terms of multiples of block_size
 		// This will get us (conservatively) at least one block
-		int new_blocks = (new_room + list->block_size) / list->block_size;
-		int new_capacity = list->capacity + (new_blocks * list->block_size);
-		size_t new_bytes = sizeof(as_val*) * new_capacity;
+		uint64_t new_blocks = (new_room + list->block_size) / list->block_size;
+		uint64_t new_capacity = list->capacity + (new_blocks * list->block_size);
+
+		if (new_capacity > UINT32_MAX) {
+			new_capacity = UINT32_MAX;
+		}
+
+		if (new_size > new_capacity) {
+			return AS_ARRAYLIST_ERR_MAX;
+		}
+
+		size_t new_bytes = sizeof(as_val*) * (size_t)new_capacity;
 		as_val** elements = (as_val**) cf_realloc(list->elements, new_bytes);
 		if (! elements) {
 			return AS_ARRAYLIST_ERR_ALLOC;
@@ -132,7 +143,7 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 		memset((uint8_t *)elements + old_bytes, 0, new_bytes - old_bytes);
 		// Set the new array pointer and capacity.
 		list->elements = elements;
-		list->capacity = new_capacity;
+		list->capacity = (uint32_t)new_capacity;
 		list->free = true;
 	}
 
@@ -192,6 +203,11 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 {
 	int rc = AS_ARRAYLIST_OK;
 
+	if (index == UINT32_MAX) {
+		// The size could not be represented.
+		return AS_ARRAYLIST_ERR_MAX;
+	}
+
 	if (index >= list->capacity) {
 		rc = as_arraylist_ensure(list, (index + 1) - list->size);
 
@@ -249,6 +265,11 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 {
 	uint32_t delta = 1;
 
+	if (index == UINT32_MAX) {
+		// The size could not be represented.
+		return AS_ARRAYLIST_ERR_MAX;
+	}
+
 	if (index > list->size) {
 		delta = index + 1 - list->size;
 	}
-- 
2.43.0


From ae9bf6f306a319e8f2efe25901a15d517b7cf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:51 +0000
Subject: [PATCH 17/81] fix: typed list setters release their value when
 refused

as_arraylist_{set,insert,append,prepend}_{int64,double,str} create the value
themselves, so nobody else could free it after a failure.
---
 src/main/aerospike/as_arraylist.c | 48 +++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 0c99d2d..1af1027 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -238,22 +238,34 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 	return rc;
 }
 
+// Store a value created by the caller. It is not left behind when refused.
+static int
+as_arraylist_set_new(as_arraylist* list, uint32_t index, as_val* value)
+{
+	int rc = as_arraylist_set(list, index, value);
+
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_integer_new(value));
+	return as_arraylist_set_new(list, index, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_double_new(value));
+	return as_arraylist_set_new(list, index, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_set_new(list, index, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
@@ -300,22 +312,34 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 	return AS_ARRAYLIST_OK;
 }
 
+// Insert a value created by the caller. It is not left behind when refused.
+static int
+as_arraylist_insert_new(as_arraylist* list, uint32_t index, as_val* value)
+{
+	int rc = as_arraylist_insert(list, index, value);
+
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_integer_new(value));
+	return as_arraylist_insert_new(list, index, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_double_new(value));
+	return as_arraylist_insert_new(list, index, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_insert_new(list, index, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
@@ -331,19 +355,19 @@ as_arraylist_append(as_arraylist* list, as_val* value)
 int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_append(list, (as_val*) as_integer_new(value));
+	return as_arraylist_insert_new(list, list->size, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
-	return as_arraylist_append(list, (as_val*) as_double_new(value));
+	return as_arraylist_insert_new(list, list->size, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_append(list, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_insert_new(list, list->size, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
@@ -359,19 +383,19 @@ as_arraylist_prepend(as_arraylist* list, as_val* value)
 int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_integer_new(value));
+	return as_arraylist_insert_new(list, 0, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_double_new(value));
+	return as_arraylist_insert_new(list, 0, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_insert_new(list, 0, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
-- 
2.43.0


From 72ea9d0d5a2d692c8e9e9139f6806938b35a1401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 18/81] fix: show map entries after a key or value without text

The text form of a map ended at the first key or value that has no text
form of its own, such as an empty byte buffer.  The remaining entries were
silently dropped.  Show <NULL> in its place, as lists already do.
---
 src/main/aerospike/as_map.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index a436ff2..3a63847 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -68,21 +68,23 @@ typedef struct as_map_val_tostring_data_s {
 	bool		sep;
 } as_map_val_tostring_data;
 
+static const char AS_MAP_NULL_STR[] = "<NULL>";
+
 static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, void* udata)
 {
 	as_map_val_tostring_data * data = (as_map_val_tostring_data *) udata;
 
+	// A key or value without a text form must not cut off the entries after it.
 	char * keystr = as_val_tostring(key);
 	if (!keystr) {
-		return false;
+		keystr = (char *)AS_MAP_NULL_STR;
 	}
 	int keylen = (int)strlen(keystr);
 
 	char * valstr = as_val_tostring(val);
-    if (!valstr) {
-		cf_free(keystr);
-    	return false;
-    }
+	if (!valstr) {
+		valstr = (char *)AS_MAP_NULL_STR;
+	}
 	int vallen = (int)strlen(valstr);
 
 	uint32_t entlen = keylen + 2 + vallen + 2;
@@ -111,11 +113,13 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	data->sep = true;
 
-	cf_free(keystr);
-	keystr = NULL;
+	if (keystr != AS_MAP_NULL_STR) {
+		cf_free(keystr);
+	}
 
-	cf_free(valstr);
-	valstr = NULL;
+	if (valstr != AS_MAP_NULL_STR) {
+		cf_free(valstr);
+	}
 
 	return true;
 }
-- 
2.43.0


From 7834531f244920b216564cf9e811e426191c7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 19/81] fix: text form of a pair with a member that has no text

Printing a pair that holds an empty byte buffer or a missing value called
strlen() on NULL.  Also release both texts when the result cannot be
allocated.
---
 src/main/aerospike/as_pair.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_pair.c b/src/main/aerospike/as_pair.c
index 0e8c017..3c4b6b7 100644
--- a/src/main/aerospike/as_pair.c
+++ b/src/main/aerospike/as_pair.c
@@ -65,19 +65,26 @@ char *as_pair_val_tostring(const as_val * v)
 	as_pair * p = as_pair_fromval(v);
 	if ( p == NULL ) return NULL;
 
+	// Members without a text form are shown the way lists show them.
 	char * a = as_val_tostring(p->_1);
-	size_t al = strlen(a);
+	const char * as = a ? a : "<NULL>";
+	size_t al = strlen(as);
 	char * b = as_val_tostring(p->_2);
-	size_t bl = strlen(b);
+	const char * bs = b ? b : "<NULL>";
+	size_t bl = strlen(bs);
 	
 	size_t l = al + bl + 5;
 	char * str = (char *) cf_malloc(sizeof(char) * l);
-	if (!str) return str;
+	if (!str) {
+		cf_free(a);
+		cf_free(b);
+		return str;
+	}
 
 	strcpy(str, "(");
-	strcpy(str+1, a);
+	strcpy(str+1, as);
 	strcpy(str+1+al,", ");
-	strcpy(str+1+al+2, b);
+	strcpy(str+1+al+2, bs);
 	strcpy(str+1+al+2+bl,")");
 	*(str+1+al+2+bl+1) = '\0';
 	
-- 
2.43.0


From 26839c3048980f8b439ada9907ff481f1be9ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 20/81] fix: size of the text form of large byte buffers

The length of the text was computed in 32 bits.  A buffer of 2^30 bytes or
more got an allocation far too small for its text and overran the heap.
---
 src/main/aerospike/as_bytes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index fc814bc..ac431dc 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -407,14 +407,14 @@ char * as_bytes_val_tostring(const as_val * v)
 
     uint8_t * 	s = bytes->value;
     uint32_t 	sl = bytes->size;
-    size_t		st = (4 * sl) + 3;
+    size_t		st = (4 * (size_t)sl) + 3;
     char * 		str = (char *) cf_malloc(st);
 
     if ( !str ) {
     	return NULL;
     }
     
-    int j=0;
+    size_t j=0;
     for ( uint32_t i=0; i < sl; i++ ) {
         str[j] = as_hex_chars[(s[i] >> 4) & 0xf];
         str[j+1] = as_hex_chars[s[i] & 0xf];
-- 
2.43.0


From 73b85d6122c1a8e4324a1d98bbfc052e8725de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 21/81] fix: bounds of byte buffer reads and writes near the
 index limit

index + size was added in 32 bits.  An index near UINT32_MAX wrapped the sum
to a small number, so the access was accepted and went outside the buffer.
---
 src/main/aerospike/as_bytes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index ac431dc..6053177 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -153,7 +153,7 @@ as_bytes * as_bytes_new_wrap(uint8_t * value, uint32_t size, bool free)
  */
 uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value, uint32_t size)
 {
-	uint32_t sz = index + size > bytes->size ? 0 : size;
+	uint32_t sz = (uint64_t)index + size > bytes->size ? 0 : size;
 	if ( sz == 0 ) return sz;
 	memcpy(value, &bytes->value[index], sz);
     return sz;
@@ -218,7 +218,7 @@ uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t *
  */
 bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint32_t size)
 {
-    if ( index + size > bytes->capacity ) return false;
+    if ( (uint64_t)index + size > bytes->capacity ) return false;
     memcpy(&bytes->value[index], value, size);
     if ( index + size > bytes->size ) {
     	bytes->size = index + size;
-- 
2.43.0


From 2af967a8328ca823f2055c5fc18200dfa80a1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 22/81] fix: bounds of reading a variable length integer

as_bytes_get_var_int() read until it met a byte without the continuation
bit, past the end of the buffer if need be, and shifted by more than the
width of the result.  Return 0, the documented error, instead.
---
 src/main/aerospike/as_bytes.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 6053177..1a00115 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -177,15 +177,25 @@ uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value,
  */
 uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t * value)
 {
+	if (index >= bytes->capacity) {
+		return 0;
+	}
+
 	uint8_t* begin = bytes->value + index;
+	uint8_t* end = bytes->value + bytes->capacity;
 	uint8_t* p = begin;
 	uint32_t val = 0;
 	uint32_t shift = 0;
 	uint8_t b;
 	
 	do {
+		// A 32 bit integer takes at most 5 bytes.
+		if (p == end || shift > 28) {
+			return 0;
+		}
+
 		b = *p++;
-		val |= (b & 0x7F) << shift;
+		val |= (uint32_t)(b & 0x7F) << shift;
 		shift += 7;
 	} while ((b & 0x80));
 	
-- 
2.43.0


From abbedc41fe11f72f0e7aeff36a8b52cd8f5bd928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 23/81] fix: variable length integer that does not fit leaves
 the buffer alone

as_bytes_set_var_int() reported failure after it had already overwritten the
bytes up to the end of the buffer.
---
 src/main/aerospike/as_bytes.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 1a00115..e86becb 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -254,20 +254,26 @@ bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint3
  */
 uint32_t as_bytes_set_var_int(const as_bytes * bytes, uint32_t index, uint32_t value)
 {
-	uint8_t* begin = bytes->value + index;
-	uint8_t* end = bytes->value + bytes->capacity;
-	uint8_t* p = begin;
-	
-	while (p < end && value >= 0x80) {
+	uint32_t size = 1;
+
+	for (uint32_t v = value; v >= 0x80; v >>= 7) {
+		size++;
+	}
+
+	// Write nothing unless all of it fits.
+	if ((uint64_t)index + size > bytes->capacity) {
+		return 0;
+	}
+
+	uint8_t* p = bytes->value + index;
+
+	while (value >= 0x80) {
 		*p++ = (uint8_t)(value | 0x80);
 		value >>= 7;
 	}
-	
-	if (p < end) {
-		*p++ = (uint8_t)value;
-		return (uint32_t)(p - begin);
-	}
-	return 0;
+
+	*p = (uint8_t)value;
+	return size;
 }
 
 /******************************************************************************
-- 
2.43.0


From d2c76f6b4a43896cd2b2f057119bc3843fcb567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:26 +0000
Subject: [PATCH 24/81] fix: timed pop of as_queue_mt waits for its full time

A spurious wakeup, or another thread taking the entry first, made a timed
pop report an empty queue long before its limit.
---
 src/main/aerospike/as_queue_mt.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_queue_mt.c b/src/main/aerospike/as_queue_mt.c
index 6e341e8..db6e9b3 100644
--- a/src/main/aerospike/as_queue_mt.c
+++ b/src/main/aerospike/as_queue_mt.c
@@ -48,7 +48,13 @@ as_queue_mt_wait(as_queue_mt* queue, int wait_ms)
 
 	struct timespec tp;
 	cf_set_wait_timespec(wait_ms, &tp);
-	pthread_cond_timedwait(&queue->cond, &queue->lock, &tp);
+
+	// Spurious wakeups and entries taken by another thread do not end the wait.
+	do {
+		if (pthread_cond_timedwait(&queue->cond, &queue->lock, &tp) != 0) {
+			return;
+		}
+	} while (as_queue_empty(&queue->queue));
 }
 
 /******************************************************************************
-- 
2.43.0


From b61d9aff2051bea57bc2282a1c303932eef95ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:26 +0000
Subject: [PATCH 25/81] fix: timed pops of cf_queue wait for their full time

A spurious wakeup, or another thread taking the element first, made
cf_queue_pop() and cf_queue_reduce_pop() report an empty queue long before
their limit.
---
 src/main/citrusleaf/cf_queue.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 99f9f07..1219170 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -445,9 +445,10 @@ cf_queue_pop(cf_queue *q, void *buf, int ms_wait)
 				return CF_QUEUE_EMPTY;
 			}
 			else {
-				pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
+				// Spurious wakeups do not end the wait.
+				int rv = pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
 
-				if (CF_Q_EMPTY(q)) {
+				if (rv != 0 && CF_Q_EMPTY(q)) {
 					pthread_mutex_unlock(&q->LOCK);
 					return CF_QUEUE_EMPTY;
 				}
@@ -578,9 +579,10 @@ cf_queue_reduce_pop(cf_queue *q, void *buf, int ms_wait, cf_queue_reduce_fn cb,
 				return CF_QUEUE_EMPTY;
 			}
 			else {
-				pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
+				// Spurious wakeups do not end the wait.
+				int rv = pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
 
-				if (CF_Q_EMPTY(q)) {
+				if (rv != 0 && CF_Q_EMPTY(q)) {
 					pthread_mutex_unlock(&q->LOCK);
 					return CF_QUEUE_EMPTY;
 				}
-- 
2.43.0


From 956714ab236d6d4d090e4bb02c36b5111ecf57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:26 +0000
Subject: [PATCH 26/81] fix: cf_queue_delete removes adjacent matches in a
 wrapped queue

When the ring has wrapped, an element is deleted by moving the rest of the
tail down one place.  The scan then stepped over the element that had moved
into the gap, so a second match right behind the first one was kept.
---
 src/main/citrusleaf/cf_queue.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 1219170..dde8bab 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -676,12 +676,20 @@ cf_queue_delete(cf_queue *q, const void *ptr, bool only_one)
 			}
 
 			if (rv == 0) {
+				uint32_t write_offset = q->write_offset;
+
 				cf_queue_delete_offset(q, i);
 				found = true;
 
 				if (only_one) {
 					break;
 				}
+
+				// If the gap was closed from the tail side, the next element is
+				// now at this offset.
+				if (q->write_offset != write_offset) {
+					i--;
+				}
 			}
 		}
 	}
-- 
2.43.0


From 42c0a6675083c89c0867447f863823c34fb9a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:36 +0000
Subject: [PATCH 27/81] fix: thread pool whose threads only partly start

When one pthread_create() failed, its slot stayed empty between the started
threads.  Destroying the pool then joined the empty slot and left the last
thread unjoined.  When no thread started at all, the thread array and the
queue were never released.
---
 src/main/aerospike/as_thread_pool.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 5a81e42..d5906c1 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -77,10 +77,19 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 
 	// Start threads.
 	for (uint32_t i = 0; i < thread_size; i++) {
-		if (pthread_create(&pool->threads[i], NULL, as_thread_worker, pool) == 0) {
+		// Keep started threads contiguous, so destroy joins exactly those.
+		if (pthread_create(&pool->threads[pool->thread_size], NULL, as_thread_worker, pool) == 0) {
 			pool->thread_size++;
 		}
 	}
+
+	if (pool->thread_size == 0 && thread_size != 0) {
+		// Destroy has no effect on a pool without threads.
+		cf_free(pool->threads);
+		pool->threads = NULL;
+		cf_queue_destroy(pool->dispatch_queue);
+		pool->dispatch_queue = NULL;
+	}
 	return (pool->thread_size == thread_size)? 0 : -3;
 }
 
-- 
2.43.0


From 8f404a850d13100a5de760fabd23bada62540b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:36 +0000
Subject: [PATCH 28/81] fix: run tasks accepted while the thread pool shuts
 down

A task that submits another task checks that the pool is open and then
queues it.  When the pool was closed between the two steps, the new task
landed behind the shutdown messages and was dropped although the submission
had been accepted.  Run what is left after the threads have ended.  The
open check is now an atomic load, as its counterpart is an atomic store.
---
 src/main/aerospike/as_thread_pool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index d5906c1..280f4de 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -96,7 +96,7 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 int
 as_thread_pool_queue_task(as_thread_pool* pool, as_task_fn task_fn, void* task)
 {
-	if (pool->thread_size == 0) {
+	if (as_load_uint32(&pool->thread_size) == 0) {
 		// No threads are running to process task.
 		return -1;
 	}
@@ -140,6 +140,14 @@ as_thread_pool_destroy(as_thread_pool* pool)
 		pthread_join(pool->threads[i], NULL);
 	}
 
+	// A running task may have queued another task just as the pool was being
+	// closed.  That task was accepted, but is behind the shutdown messages.
+	while (cf_queue_pop(pool->dispatch_queue, &task, CF_QUEUE_NOWAIT) == CF_QUEUE_OK) {
+		if (task.task_fn) {
+			task.task_fn(task.task_data);
+		}
+	}
+
 	cf_free(pool->threads);
 	cf_queue_destroy(pool->dispatch_queue);
 	return 0;
-- 
2.43.0


From df6badd5e8ece28c29cdbab47e09c8b28a2d2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:36 +0000
Subject: [PATCH 29/81] fix: buffer pool requests near the size limit

The header size was added in 32 bits.  A request near UINT32_MAX wrapped to
a small number and was served with a regular buffer.  The same sum decides
whether a returned buffer is kept.
---
 src/main/aerospike/as_buffer_pool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_buffer_pool.c b/src/main/aerospike/as_buffer_pool.c
index 08691ef..c4b91d0 100644
--- a/src/main/aerospike/as_buffer_pool.c
+++ b/src/main/aerospike/as_buffer_pool.c
@@ -35,18 +35,18 @@ as_buffer_pool_init(as_buffer_pool* pool, uint32_t header_size, uint32_t buffer_
 int
 as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer)
 {
-	size += pool->header_size;
+	uint64_t total = (uint64_t)size + pool->header_size;
 	
-	if (size > pool->buffer_size) {
+	if (total > pool->buffer_size) {
 		// Requested size is greater than fixed buffer size.
 		// Allocate new buffer, but don't put back into pool.
-		buffer->data = cf_malloc(size);
+		buffer->data = cf_malloc((size_t)total);
 		
 		if (! buffer->data) {
 			return -1;
 		}
 		
-		buffer->capacity = size - pool->header_size;
+		buffer->capacity = size;
 		return 2;
 	}
 	
@@ -76,7 +76,7 @@ as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer
 int
 as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool.
 		if (cf_queue_push(pool->queue, &buffer) == CF_QUEUE_OK) {
 			return 0;
@@ -96,7 +96,7 @@ as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 int
 as_buffer_pool_push_limit(as_buffer_pool* pool, void* buffer, uint32_t capacity, uint32_t max_buffers)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool up to a limit.
 		if (cf_queue_push_limit(pool->queue, &buffer, max_buffers)) {
 			// Success.
-- 
2.43.0


From 065848b16795cd5ea7586f3993ba585c3a9b1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:08 +0000
Subject: [PATCH 30/81] fix: compute string builder bytes capacity in 64 bits

The room needed for the hex text of a byte array was computed in 32 bits.
Arrays of more than about 1.4 GB wrapped around, the buffer was not grown
and the text was written past its end.
---
 src/main/aerospike/as_string_builder.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index d7a8b58..788e5ed 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -165,10 +165,14 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
 		// - 1 extra separator + 1 null byte.
-		uint32_t min_capacity = sb->length + (size * 3) + 2;
+		uint64_t min_capacity = (uint64_t)sb->length + ((uint64_t)size * 3) + 2;
+
+		if (min_capacity > UINT32_MAX) {
+			return false;
+		}
 
 		if (min_capacity > sb->capacity) {
-			if (! as_sb_increase_capacity(sb, min_capacity)) {
+			if (! as_sb_increase_capacity(sb, (uint32_t)min_capacity)) {
 				return false;
 			}
 		}
-- 
2.43.0


From a1ca818d96cf505c89a248bd719a60fb11926126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:08 +0000
Subject: [PATCH 31/81] fix: keep the opening bracket of empty bytes in the
 string builder

Removing the last separator removed the opening bracket when there was no
byte, so an empty array was appended as "]".
---
 src/main/aerospike/as_string_builder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 788e5ed..5532b14 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -161,6 +161,10 @@ as_sb_append_byte(as_string_builder* sb, uint8_t b)
 bool
 as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t size)
 {
+	if (size == 0) {
+		return as_string_builder_append(sb, "[]");
+	}
+
 	if (sb->resize) {
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
-- 
2.43.0


From f616ee6141248a3e618afd12ca2c66e9e5bf7e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:08 +0000
Subject: [PATCH 32/81] fix: terminate the string builder text when it cannot
 grow

An append that filled the buffer and then failed to grow it returned false
with the text left unterminated.
---
 src/main/aerospike/as_string_builder.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 5532b14..6bf02e4 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -106,13 +106,12 @@ as_string_builder_append(as_string_builder* sb, const char* src)
 		// Optimistic increase of length failed. Roll it back.
 		sb->length--;
 
+		*trg = 0;
+
 		if (sb->resize) {
 			return as_sb_expand(sb, src);
 		}
-		else {
-			*trg = 0;
-			return false;
-		}
+		return false;
 	}
 	*trg = 0;
 	return true;
-- 
2.43.0


From 08b49444afc9a882ad4e04a823ea0acae29ee1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:18 +0000
Subject: [PATCH 33/81] fix: compute hex string size in 64 bits

The size needed for the hex text of 2^31 bytes or more wrapped around, so a
small target was taken as large enough and written past its end.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index e86becb..d3f8a62 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -452,7 +452,7 @@ bool
 as_bytes_to_string(const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size)
 {
 	// Ensure hex string has enough space including null terminator.
-	if ((bytes_size * 2 + 1) > str_size) {
+	if (((uint64_t)bytes_size * 2 + 1) > str_size) {
 		if (str_size > 0) {
 			*str = 0;
 		}
-- 
2.43.0


From 5d70482b3e4994fe0778e655c363883664e21c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:18 +0000
Subject: [PATCH 34/81] fix: refuse prefixed hex strings in targets too small
 for the prefix

With a target of fewer than two characters the remaining size wrapped around
and the hex text was written past the end of the target.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index d3f8a62..39ef996 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -474,7 +474,7 @@ as_bytes_to_string_with_prefix(
 	const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size
 	)
 {
-	if (as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
+	if (str_size > 2 && as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
 		*str++ = '0';
 		*str = 'x';
 		return true;
-- 
2.43.0


From 910865ded7f9e915e60fc27f1bcf72fa4d096423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:18 +0000
Subject: [PATCH 35/81] fix: do not write to an empty as_strncpy target

The terminator was written even when the stated target size was zero.
---
 src/main/aerospike/as_string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index a37c542..1622648 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -196,6 +196,11 @@ char * as_string_val_tostring(const as_val * v)
 bool
 as_strncpy(char* trg, const char* src, int size)
 {
+	if (size <= 0) {
+		// There is no room for the null terminator.
+		return src && *src;
+	}
+
 	if (src) {
 		int max = size - 1;
 		int i = 0;
-- 
2.43.0


From df768a1d08482d3203f1195e8e1d4b4af8ecbb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:18 +0000
Subject: [PATCH 36/81] fix: compute decoded base64 buffer size in 64 bits

The size wrapped around for texts of 2^32 / 3 characters or more, so a buffer
of the announced size was too small for the decoded bytes.
---
 src/include/citrusleaf/cf_b64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/citrusleaf/cf_b64.h b/src/include/citrusleaf/cf_b64.h
index fd7039b..95f70e1 100644
--- a/src/include/citrusleaf/cf_b64.h
+++ b/src/include/citrusleaf/cf_b64.h
@@ -42,7 +42,7 @@ void cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out);
 static inline uint32_t
 cf_b64_decoded_buf_size(uint32_t in_len)
 {
-	return (in_len * 3) >> 2;
+	return (uint32_t)(((uint64_t)in_len * 3) >> 2);
 }
 
 void cf_b64_decode(const char* in, uint32_t in_len, uint8_t* out, uint32_t* out_size);
-- 
2.43.0


From 83dd9ce7ef1e48b699cc04ee84570f9de6c7feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:41 +0000
Subject: [PATCH 37/81] fix: use unsigned indexes when encoding base64

Inputs of more than about 1.6 GB overflowed the signed output index.
---
 src/main/citrusleaf/cf_b64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_b64.c b/src/main/citrusleaf/cf_b64.c
index 4178786..67f7008 100644
--- a/src/main/citrusleaf/cf_b64.c
+++ b/src/main/citrusleaf/cf_b64.c
@@ -82,8 +82,8 @@ static const uint8_t base64_decode_a[] = {
 void
 cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out)
 {
-	int i = 0;
-	int j = 0;
+	uint32_t i = 0;
+	uint32_t j = 0;
 
 	while (in_size >= 3) {
 		uint8_t i0 = in[i];
-- 
2.43.0


From 103a870eeb92e27e64dd7c8ee28aa74088336687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:43 +0000
Subject: [PATCH 38/81] fix: SHA-1 of messages of 4 GB or more

The message length was cut to 32 bits, so only the low part of the length was
hashed.
---
 src/main/citrusleaf/cf_crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index 6978e04..c0cb93c 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -64,7 +64,7 @@ typedef struct cf_SHA1Context_s {
 //
 
 static int cf_SHA1Reset(cf_SHA1Context *context);
-static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, unsigned length);
+static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, size_t length);
 static int cf_SHA1Result(cf_SHA1Context *context, uint8_t Message_Digest[CF_SHA1HashSize]);
 
 static void cf_SHA1ProcessMessageBlock(cf_SHA1Context *);
@@ -89,7 +89,7 @@ cf_SHA1(const uint8_t* d, size_t n, uint8_t* md)
 	cf_SHA1Context sha;
 
 	cf_SHA1Reset(&sha);
-	cf_SHA1Input(&sha, d, (unsigned)n);
+	cf_SHA1Input(&sha, d, n);
 	cf_SHA1Result(&sha, md);
 }
 
@@ -123,7 +123,7 @@ cf_SHA1Reset(cf_SHA1Context *context)
 
 static int
 cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array,
-		unsigned length)
+		size_t length)
 {
 	if (! length) {
 		return cf_shaSuccess;
-- 
2.43.0


From eac939c99aaa58c3108944be9e43a9faa9280ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:43 +0000
Subject: [PATCH 39/81] fix: RIPEMD-160 of 4 GB or more in one update

The upper half of the update length was not added to the message length, which
is part of the digest.
---
 src/main/citrusleaf/cf_crypto.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index c0cb93c..8534e7f 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -428,6 +428,8 @@ cf_RIPEMD160_Update(cf_RIPEMD160_CTX* ctx, const void* v_input, size_t ilen)
 		ctx->total[1]++;
 	}
 
+	ctx->total[1] += (uint32_t) ((uint64_t) ilen >> 32);
+
 	if (left && ilen >= fill) {
 		memcpy((void*)(ctx->buffer + left), input, fill);
 
-- 
2.43.0


From 73d3440c00848dfea4c74a495964494e79582d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:43 +0000
Subject: [PATCH 40/81] fix: do not look before the start of an empty prompted
 password

A line starting with a null byte, or a target of one character, gives an empty
string. Its last character was then read, and possibly cleared, in front of the
buffer.
---
 src/main/aerospike/as_password.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_password.c b/src/main/aerospike/as_password.c
index be53dc2..e093b94 100644
--- a/src/main/aerospike/as_password.c
+++ b/src/main/aerospike/as_password.c
@@ -117,7 +117,7 @@ as_password_prompt(char* password, int size)
 	if (s) {
 		int len = (int)strlen(password);
 
-		if (password[len - 1] == '\n') {
+		if (len > 0 && password[len - 1] == '\n') {
 			password[--len] = 0;
 		}
 	}
-- 
2.43.0


From 7831891d18ae12dfaa3c44abbf2fbb05560c6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:43 +0000
Subject: [PATCH 41/81] fix: a wildcard certificate name does not match an
 empty label

"*.example.com" matched the name ".example.com".
---
 src/main/aerospike/ssl_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 3d8280e..cab498b 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -337,7 +337,8 @@ static BOOL modssl_X509_match_name(apr_pool_t *p, X509 *x509, const char *name,
              * to match a dot. Otherwise, try a simple string compare.
              */
             if ((allow_wildcard == TRUE && is_wildcard == TRUE &&
-                 (cp = strchr(name, '.')) && !strcasecmp(id[i]+1, cp)) ||
+                 (cp = strchr(name, '.')) && cp != name &&
+                 !strcasecmp(id[i]+1, cp)) ||
                 !strcasecmp(id[i], name)) {
                 matched = TRUE;
             }
-- 
2.43.0


From 1b847fee90c61f35cd2c8e9e764d2d65654b240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:43 +0000
Subject: [PATCH 42/81] fix: matching a name without a certificate

The list of certified names is NULL when there is no certificate. It was
destroyed all the same.
---
 src/main/aerospike/ssl_util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index cab498b..03fee59 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -368,8 +368,10 @@ static BOOL modssl_X509_match_name(apr_pool_t *p, X509 *x509, const char *name,
 	}
 #endif
 
-    as_array_destroy(ids);
-    
+    if (ids) {
+        as_array_destroy(ids);
+    }
+
     return matched;
 }
 
-- 
2.43.0


From d05e8dbc2cfd6c91eac427793fe4e1efbd8f97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:43 +0000
Subject: [PATCH 43/81] fix: compare certificate alternative names up to their
 full length

A DNS name with an embedded null byte, such as "good.com\0.evil.com", matched
the part in front of it.
---
 src/main/aerospike/ssl_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 03fee59..24be63c 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -461,7 +461,9 @@ bool as_tls_match_san(X509 *x509, const char *name) {
 			char *san = (char*)ASN1_STRING_get0_data(dns_name);
 #endif
 
-			if (strcmp(name, san) == 0) {
+			// The name must match in full, including any embedded null bytes.
+			if (strlen(name) == (size_t)ASN1_STRING_length(dns_name) &&
+					memcmp(name, san, strlen(name)) == 0) {
 				match = true;
 				break;
 			}
-- 
2.43.0


From 0e4cc00be83c8ecca1385845a57b00e04bae3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:36 +0000
Subject: [PATCH 44/81] fix: read the spin lock word atomically while waiting

The waiting loop read the lock word with a plain load while the holder
stores to it, which is a data race.
---
 src/include/aerospike/as_atomic_gcc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_atomic_gcc.h b/src/include/aerospike/as_atomic_gcc.h
index 67e5b49..2a6a855 100644
--- a/src/include/aerospike/as_atomic_gcc.h
+++ b/src/include/aerospike/as_atomic_gcc.h
@@ -779,7 +779,7 @@ as_spinlock_lock(as_spinlock* s)
 {
 	while (as_fas_acq(&s->u32, 1) == 1) {
 		// Spin on load to avoid hammering cache with write.
-		while (s->u32 == 1) {
+		while (as_load_rlx(&s->u32) == 1) {
 			as_arch_pause();
 		}
 	}
-- 
2.43.0


From f541d3a9dbbe66b7f41f2030acda458c6fd2c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:36 +0000
Subject: [PATCH 45/81] fix: take the reader lock with acquire ordering

The writer may lock and unlock between the reader's check of the writer
bit and its increment of the reader count. The increment was relaxed, so
such a reader was not ordered after the writer's updates.
---
 src/include/aerospike/as_atomic_gcc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_atomic_gcc.h b/src/include/aerospike/as_atomic_gcc.h
index 2a6a855..7b907af 100644
--- a/src/include/aerospike/as_atomic_gcc.h
+++ b/src/include/aerospike/as_atomic_gcc.h
@@ -832,7 +832,7 @@ as_swlock_read_lock(as_swlock* rw)
 			as_arch_pause();
 		}
 
-		uint32_t l = as_faa_uint32(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
+		uint32_t l = as_faa_acq(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
 
 		if (l == 0) {
 			break;
-- 
2.43.0


From 015672cccfbde882180e20f592849e58a9f6e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:55 +0000
Subject: [PATCH 46/81] fix: accept any argument expression in the typed atomic
 macros

The temporaries were called v, ov and nv and the arguments were used
without parentheses. as_store_double(&x, v) therefore stored an
indeterminate value, as_cas_ptr(p, a + 1, b) compared with the address one
byte further, and as_store_bool(p, flags & 0x100) stored false.
---
 src/include/aerospike/as_atomic.h | 54 +++++++++++++++----------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/include/aerospike/as_atomic.h b/src/include/aerospike/as_atomic.h
index ea0f62b..e5cc2aa 100644
--- a/src/include/aerospike/as_atomic.h
+++ b/src/include/aerospike/as_atomic.h
@@ -28,26 +28,26 @@
 
 // double as_load_double(const double* target)
 #define as_load_double(_target) ({ \
-		uint64_t v =  as_load_uint64((const uint64_t*)_target); \
-		*(double*)&v; \
+		uint64_t _as_v = as_load_uint64((const uint64_t*)(_target)); \
+		*(double*)&_as_v; \
 	})
 
 // float as_load_float(const float* target)
 #define as_load_float(_target) ({ \
-		uint32_t v =  as_load_uint32((const uint32_t*)_target); \
-		*(float*)&v; \
+		uint32_t _as_v = as_load_uint32((const uint32_t*)(_target)); \
+		*(float*)&_as_v; \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // bool as_load_bool(const bool* target)
 #define as_load_bool(_target) ({ \
-		(bool)as_load_uint8((const uint8_t*)_target); \
+		(bool)as_load_uint8((const uint8_t*)(_target)); \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // bool as_load_bool_acq(const bool* target)
 #define as_load_bool_acq(_target) ({ \
-		(bool)as_load_uint8_acq((const uint8_t*)_target); \
+		(bool)as_load_uint8_acq((const uint8_t*)(_target)); \
 	})
 
 /******************************************************************************
@@ -56,26 +56,26 @@
 
 // void as_store_double(double* target, double value)
 #define as_store_double(_target, _value) ({ \
-		double v = _value; \
-		as_store_uint64((uint64_t*)_target, *(uint64_t*)&v); \
+		double _as_v = (_value); \
+		as_store_uint64((uint64_t*)(_target), *(uint64_t*)&_as_v); \
 	})
 
 // void as_store_float(float* target, float value)
 #define as_store_float(_target, _value) ({ \
-		float v = _value; \
-		as_store_uint32((uint32_t*)_target, *(uint32_t*)&v); \
+		float _as_v = (_value); \
+		as_store_uint32((uint32_t*)(_target), *(uint32_t*)&_as_v); \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // void as_store_bool(bool* target, bool value)
 #define as_store_bool(_target, _value) ({ \
-		as_store_uint8((uint8_t*)_target, (uint8_t)_value); \
+		as_store_uint8((uint8_t*)(_target), (uint8_t)(bool)(_value)); \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // void as_store_bool_rls(bool* target, bool value)
 #define as_store_bool_rls(_target, _value) ({ \
-		as_store_uint8_rls((uint8_t*)_target, (uint8_t)_value); \
+		as_store_uint8_rls((uint8_t*)(_target), (uint8_t)(bool)(_value)); \
 	})
 
 /******************************************************************************
@@ -85,21 +85,21 @@
 // Note - this assumes pointers are 8 bytes.
 // void* as_fas_ptr(void** target, void* value)
 #define as_fas_ptr(_target, _value) ({ \
-		(void*)as_fas_uint64((uint64_t*)_target, (uint64_t)_value); \
+		(void*)as_fas_uint64((uint64_t*)(_target), (uint64_t)(_value)); \
 	})
 
 // double as_fas_double(double* target, double value)
 #define as_fas_double(_target, _value) ({ \
-		double nv = _value; \
-		uint64_t ov = as_fas_uint64((uint64_t*)_target, *(uint64_t*)&nv); \
-		*(double*)&ov; \
+		double _as_nv = (_value); \
+		uint64_t _as_ov = as_fas_uint64((uint64_t*)(_target), *(uint64_t*)&_as_nv); \
+		*(double*)&_as_ov; \
 	})
 
 // float as_fas_float(float* target, float value)
 #define as_fas_float(_target, _value) ({ \
-		float nv = _value; \
-		uint32_t ov = as_fas_uint32((uint32_t*)_target, *(uint32_t*)&nv); \
-		*(float*)&ov; \
+		float _as_nv = (_value); \
+		uint32_t _as_ov = as_fas_uint32((uint32_t*)(_target), *(uint32_t*)&_as_nv); \
+		*(float*)&_as_ov; \
 	})
 
 /******************************************************************************
@@ -109,20 +109,20 @@
 // Note - this assumes pointers are 8 bytes.
 // bool as_cas_ptr(void** target, void* old_value, void* new_value)
 #define as_cas_ptr(_target, _old_value, _new_value) ({ \
-		as_cas_uint64((uint64_t*)_target, (uint64_t)_old_value, \
-				(uint64_t)_new_value); \
+		as_cas_uint64((uint64_t*)(_target), (uint64_t)(_old_value), \
+				(uint64_t)(_new_value)); \
 	})
 
 // bool as_cas_double(double* target, double old_value, double new_value)
 #define as_cas_double(_target, _old_value, _new_value) ({ \
-		double ov = _old_value; \
-		double nv = _new_value; \
-		as_cas_uint64((uint64_t*)_target, *(uint64_t*)&ov, *(uint64_t*)&nv); \
+		double _as_ov = (_old_value); \
+		double _as_nv = (_new_value); \
+		as_cas_uint64((uint64_t*)(_target), *(uint64_t*)&_as_ov, *(uint64_t*)&_as_nv); \
 	})
 
 // bool as_cas_float(float* target, float old_value, float new_value)
 #define as_cas_float(_target, _old_value, _new_value) ({ \
-		float ov = _old_value; \
-		float nv = _new_value; \
-		as_cas_uint32((uint32_t*)_target, *(uint32_t*)&ov, *(uint32_t*)&nv); \
+		float _as_ov = (_old_value); \
+		float _as_nv = (_new_value); \
+		as_cas_uint32((uint32_t*)(_target), *(uint32_t*)&_as_ov, *(uint32_t*)&_as_nv); \
 	})
-- 
2.43.0


From dfa57ca4d710ebb76246858c566da3fd6ada1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:13 +0000
Subject: [PATCH 47/81] fix: seed a thread's random generator again when
 seeding failed

When /dev/urandom could not be opened at a thread's first use, the
generator was marked initialized with zero seeds and returned zero for
ever after.
---
 src/main/aerospike/as_random.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_random.c b/src/main/aerospike/as_random.c
index 26ae393..55862b5 100644
--- a/src/main/aerospike/as_random.c
+++ b/src/main/aerospike/as_random.c
@@ -47,7 +47,9 @@ as_random_init(as_random* random)
 	// Do not use a counter as a seed.
 	random->seed0 = cf_get_rand64();
 	random->seed1 = cf_get_rand64();
-	random->initialized = true;
+	// Both seeds are zero when no entropy was available, and a generator with
+	// zero seeds only ever returns zero. Leave it to be initialized again.
+	random->initialized = (random->seed0 != 0 || random->seed1 != 0);
 }
 
 as_random*
-- 
2.43.0


From a2a4a05dada187a7f48199bbfa432dcef346095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:09 +0000
Subject: [PATCH 48/81] fix: check a linked list for emptiness under its lock
 when deleting

---
 src/main/citrusleaf/cf_ll.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/citrusleaf/cf_ll.c b/src/main/citrusleaf/cf_ll.c
index d328283..f9c9a35 100644
--- a/src/main/citrusleaf/cf_ll.c
+++ b/src/main/citrusleaf/cf_ll.c
@@ -166,13 +166,13 @@ void cf_ll_delete_lockfree(cf_ll *ll, cf_ll_element *e ) {
 }
 
 void cf_ll_delete(cf_ll *ll, cf_ll_element *e ) {
-	// extra check for fun
-	if (ll->sz == 0)	return;
-
 	LL_LOCK(ll);
 
-	cf_ll_delete_lockfree(ll, e);
-	
+	// extra check for fun
+	if (ll->sz != 0) {
+		cf_ll_delete_lockfree(ll, e);
+	}
+
 	LL_UNLOCK(ll);
 	
 }
-- 
2.43.0


From c47c733d62abbc4fd866c2ddf9471d7924ad88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:09 +0000
Subject: [PATCH 49/81] fix: do not overflow a linked list index of INT_MIN

---
 src/main/citrusleaf/cf_ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/citrusleaf/cf_ll.c b/src/main/citrusleaf/cf_ll.c
index f9c9a35..78ae6d4 100644
--- a/src/main/citrusleaf/cf_ll.c
+++ b/src/main/citrusleaf/cf_ll.c
@@ -333,7 +333,7 @@ cf_ll_element *cf_ll_index(cf_ll *ll, int index)
 {
 	cf_ll_element *ele = NULL;
 	if (index < 0) {
-		index = (-index) - 1;
+		index = -(index + 1);
 		ele = ll->tail;
 		while (index-- && ele) {
 			ele = ele->prev;
-- 
2.43.0


From 64a696b5afaecd104f8b140aac7817244f979102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:09 +0000
Subject: [PATCH 50/81] fix: compute vector byte offsets in size_t

---
 src/include/aerospike/as_vector.h | 12 ++++++------
 src/main/aerospike/as_vector.c    | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/include/aerospike/as_vector.h b/src/include/aerospike/as_vector.h
index 7bd909a..0a36f5a 100644
--- a/src/include/aerospike/as_vector.h
+++ b/src/include/aerospike/as_vector.h
@@ -68,7 +68,7 @@ typedef struct as_vector_s {
  *  required.
  */
 #define as_vector_inita(__vector, __item_size, __capacity)\
-(__vector)->list = alloca((__capacity) * (__item_size));\
+(__vector)->list = alloca((size_t)(__capacity) * (__item_size));\
 (__vector)->capacity = __capacity;\
 (__vector)->item_size = __item_size;\
 (__vector)->size = 0;\
@@ -111,7 +111,7 @@ as_vector_clear(as_vector* vector)
 static inline void*
 as_vector_get(as_vector* vector, uint32_t index)
 {
-	return (void *) ((uint8_t *)vector->list + (vector->item_size * index));
+	return (void *) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -120,7 +120,7 @@ as_vector_get(as_vector* vector, uint32_t index)
 static inline void*
 as_vector_get_ptr(as_vector* vector, uint32_t index)
 {
-	return *(void**) ((uint8_t *)vector->list + (vector->item_size * index));
+	return *(void**) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -135,7 +135,7 @@ as_vector_increase_capacity(as_vector* vector);
 static inline void
 as_vector_set(as_vector* vector, uint32_t index, void* value)
 {
-	memcpy((uint8_t *)vector->list + (index * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)index * vector->item_size), value, vector->item_size);
 }
 
 /**
@@ -147,7 +147,7 @@ as_vector_append(as_vector* vector, void* value)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	memcpy((uint8_t *)vector->list + (vector->size * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)vector->size * vector->item_size), value, vector->item_size);
 	vector->size++;
 }
 
@@ -173,7 +173,7 @@ as_vector_reserve(as_vector* vector)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	void* item = (uint8_t *)vector->list + (vector->size * vector->item_size);
+	void* item = (uint8_t *)vector->list + ((size_t)vector->size * vector->item_size);
 	memset(item, 0, vector->item_size);
 	vector->size++;
 	return item;
diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 0cfe2a2..7bfd680 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -23,7 +23,7 @@
 void
 as_vector_init(as_vector* vector, uint32_t item_size, uint32_t capacity)
 {
-	vector->list = cf_malloc(capacity * item_size);
+	vector->list = cf_malloc((size_t)capacity * item_size);
 	vector->capacity = capacity;
 	vector->item_size = item_size;
 	vector->size = 0;
@@ -56,12 +56,12 @@ as_vector_increase_capacity(as_vector* vector)
 {
 	if (vector->flags & FLAGS_HEAP) {
 		vector->capacity *= 2;
-		vector->list = cf_realloc(vector->list, vector->capacity * vector->item_size);
+		vector->list = cf_realloc(vector->list, (size_t)vector->capacity * vector->item_size);
 	}
 	else {
 		uint32_t capacity = vector->capacity * 2;
-		void* tmp = cf_malloc(capacity * vector->item_size);
-		memcpy(tmp, vector->list, vector->capacity * vector->item_size);
+		void* tmp = cf_malloc((size_t)capacity * vector->item_size);
+		memcpy(tmp, vector->list, (size_t)vector->capacity * vector->item_size);
 		vector->list = tmp;
 		vector->capacity = capacity;
 		vector->flags |= FLAGS_HEAP;
@@ -85,7 +85,7 @@ as_vector_append_unique(as_vector* vector, void* value)
 void*
 as_vector_to_array(as_vector* vector, uint32_t* size)
 {
-	size_t len = vector->size * vector->item_size;
+	size_t len = (size_t)vector->size * vector->item_size;
 	void* array = cf_malloc(len);
 	memcpy(array, vector->list, len);
 	*size = vector->size;
@@ -99,9 +99,9 @@ as_vector_remove(as_vector* vector, uint32_t index)
 		return false;
 	}
 
-	memmove((uint8_t*)vector->list + (index * vector->item_size),
-		    (uint8_t*)vector->list + ((index + 1) * vector->item_size),
-		    (vector->size - index - 1) * vector->item_size);
+	memmove((uint8_t*)vector->list + ((size_t)index * vector->item_size),
+		    (uint8_t*)vector->list + ((size_t)(index + 1) * vector->item_size),
+		    (size_t)(vector->size - index - 1) * vector->item_size);
 
 	vector->size--;
 	return true;
-- 
2.43.0


From cf4ba112571df95baa890ae14918b3a47384bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:09 +0000
Subject: [PATCH 51/81] fix: let a vector created with capacity zero grow

---
 src/main/aerospike/as_vector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 7bfd680..076549d 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -54,12 +54,13 @@ as_vector_destroy(as_vector* vector)
 void
 as_vector_increase_capacity(as_vector* vector)
 {
+	uint32_t capacity = vector->capacity ? vector->capacity * 2 : 1;
+
 	if (vector->flags & FLAGS_HEAP) {
-		vector->capacity *= 2;
+		vector->capacity = capacity;
 		vector->list = cf_realloc(vector->list, (size_t)vector->capacity * vector->item_size);
 	}
 	else {
-		uint32_t capacity = vector->capacity * 2;
 		void* tmp = cf_malloc((size_t)capacity * vector->item_size);
 		memcpy(tmp, vector->list, (size_t)vector->capacity * vector->item_size);
 		vector->list = tmp;
-- 
2.43.0


From 512b27d2d984487d178a6f962103f114ede4ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:09 +0000
Subject: [PATCH 52/81] fix: carry a full second of nanoseconds in computed
 deadlines

---
 src/include/citrusleaf/cf_clock.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/citrusleaf/cf_clock.h b/src/include/citrusleaf/cf_clock.h
index f8a14af..9dd26d8 100644
--- a/src/include/citrusleaf/cf_clock.h
+++ b/src/include/citrusleaf/cf_clock.h
@@ -91,7 +91,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec += ms_wait / 1000;
 	out->tv_nsec += (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -104,7 +104,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec += delta->tv_sec;
 	out->tv_nsec += delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -167,7 +167,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec = now.tv_sec + (ms_wait / 1000);
 	out->tv_nsec = now.tv_usec * 1000 + (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -182,7 +182,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = now.tv_sec + delta->tv_sec;
 	out->tv_nsec = now.tv_usec * 1000 + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -275,7 +275,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = nanos / (1000 * 1000 * 1000) + delta->tv_sec;
 	out->tv_nsec = (nanos % (1000 * 1000 * 1000)) + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
-- 
2.43.0


From de0ec96f97a1040141b0ca3636a8274809c0f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:09 +0000
Subject: [PATCH 53/81] fix: compute queue byte offsets in size_t

---
 src/include/aerospike/as_queue.h |  4 ++--
 src/main/aerospike/as_queue.c    | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/include/aerospike/as_queue.h b/src/include/aerospike/as_queue.h
index bba65ac..7ecbedf 100644
--- a/src/include/aerospike/as_queue.h
+++ b/src/include/aerospike/as_queue.h
@@ -78,7 +78,7 @@ typedef struct as_queue_s {
  * required.
  */
 #define as_queue_inita(__q, __item_size, __capacity)\
-(__q)->data = alloca((__capacity) * (__item_size));\
+(__q)->data = alloca((size_t)(__capacity) * (__item_size));\
 (__q)->capacity = __capacity;\
 (__q)->head = (__q)->tail = 0;\
 (__q)->item_size = __item_size;\
@@ -155,7 +155,7 @@ as_queue_push_head_limit(as_queue* queue, const void* ptr);
 static inline void*
 as_queue_get(as_queue* queue, uint32_t index)
 {
-	return &queue->data[(index % queue->capacity) * queue->item_size];
+	return &queue->data[(size_t)(index % queue->capacity) * queue->item_size];
 }
 	
 /**
diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ff47756..2f97c0d 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -43,17 +43,17 @@ as_queue_unwrap(as_queue* queue)
 static bool
 as_queue_copy(as_queue* queue, uint32_t new_capacity, bool free_old)
 {
-	uint8_t* tmp = cf_malloc(new_capacity * queue->item_size);
+	uint8_t* tmp = cf_malloc((size_t)new_capacity * queue->item_size);
 	
 	if (! tmp) {
 		return false;
 	}
 	
 	// end_sz is used bytes in old queue from insert point to end.
-	size_t end_sz = (queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
+	size_t end_sz = (size_t)(queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
 	
 	memcpy(tmp, as_queue_get(queue, queue->head), end_sz);
-	memcpy(&tmp[end_sz], queue->data, (queue->capacity * queue->item_size) - end_sz);
+	memcpy(&tmp[end_sz], queue->data, ((size_t)queue->capacity * queue->item_size) - end_sz);
 	
 	if (free_old) {
 		cf_free(queue->data);
@@ -75,7 +75,7 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			queue->data = cf_realloc(queue->data, (size_t)new_capacity * queue->item_size);
 			
 			if (! queue->data) {
 				return false;
@@ -105,7 +105,7 @@ as_queue_increase_capacity(as_queue* queue)
 bool
 as_queue_init(as_queue* queue, uint32_t item_size, uint32_t capacity)
 {
-	queue->data = cf_malloc(capacity * item_size);
+	queue->data = cf_malloc((size_t)capacity * item_size);
 	
 	if (! queue->data) {
 		return false;
-- 
2.43.0


From a5057821595296e024585e5c4c3c884acafdcad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:09 +0000
Subject: [PATCH 54/81] fix: let a queue created with capacity zero grow

---
 src/main/aerospike/as_queue.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index 2f97c0d..be74316 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -49,12 +49,14 @@ as_queue_copy(as_queue* queue, uint32_t new_capacity, bool free_old)
 		return false;
 	}
 	
-	// end_sz is used bytes in old queue from insert point to end.
-	size_t end_sz = (size_t)(queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
-	
-	memcpy(tmp, as_queue_get(queue, queue->head), end_sz);
-	memcpy(&tmp[end_sz], queue->data, ((size_t)queue->capacity * queue->item_size) - end_sz);
-	
+	if (queue->capacity != 0) {
+		// end_sz is used bytes in old queue from insert point to end.
+		size_t end_sz = (size_t)(queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
+
+		memcpy(tmp, as_queue_get(queue, queue->head), end_sz);
+		memcpy(&tmp[end_sz], queue->data, ((size_t)queue->capacity * queue->item_size) - end_sz);
+	}
+
 	if (free_old) {
 		cf_free(queue->data);
 	}
@@ -68,13 +70,13 @@ as_queue_copy(as_queue* queue, uint32_t new_capacity, bool free_old)
 static bool
 as_queue_increase_capacity(as_queue* queue)
 {
-	uint32_t new_capacity = queue->capacity * 2;
+	uint32_t new_capacity = queue->capacity ? queue->capacity * 2 : 1;
 	
 	if (queue->flags & ITEMS_ON_HEAP) {
 		// Data already allocated on heap.
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
-		if (queue->head % queue->capacity == 0) {
+		if (queue->capacity == 0 || queue->head % queue->capacity == 0) {
 			queue->data = cf_realloc(queue->data, (size_t)new_capacity * queue->item_size);
 			
 			if (! queue->data) {
-- 
2.43.0


From 61d3bdc9b4888b6538dd4a2f517bf0522bcdc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:10 +0000
Subject: [PATCH 55/81] fix: keep a queue's items when it cannot grow

---
 src/main/aerospike/as_queue.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index be74316..f54fdf4 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -77,11 +77,12 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->capacity == 0 || queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, (size_t)new_capacity * queue->item_size);
-			
-			if (! queue->data) {
+			uint8_t* tmp = cf_realloc(queue->data, (size_t)new_capacity * queue->item_size);
+
+			if (! tmp) {
 				return false;
 			}
+			queue->data = tmp;
 			queue->head = 0;
 			queue->tail = queue->capacity;
 			queue->capacity = new_capacity;
-- 
2.43.0


From c75e452f685f5739aff0a4c77d59e4cb63045762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:10 +0000
Subject: [PATCH 56/81] fix: keep a cf_queue's elements when it cannot grow

---
 src/main/citrusleaf/cf_queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index dde8bab..3a94bbf 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -129,12 +129,13 @@ cf_queue_resize(cf_queue *q, uint32_t new_sz)
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
 	if (0 == q->read_offset % q->alloc_sz) {
-		q->elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
+		uint8_t *newq = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
 
-		if (! q->elements) {
+		if (! newq) {
 			return CF_QUEUE_ERR;
 		}
 
+		q->elements = newq;
 		q->read_offset = 0;
 		q->write_offset = q->alloc_sz;
 	}
-- 
2.43.0


From 1f1b82bcdfed822a50c84c64fef36d0f45c25261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:10 +0000
Subject: [PATCH 57/81] fix: report a list whose storage cannot be allocated

---
 src/main/aerospike/as_arraylist.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 1af1027..22844ec 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -43,6 +43,11 @@ as_arraylist_init(as_arraylist* list, uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+
+		if (! list->elements) {
+			list->capacity = 0;
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -64,6 +69,11 @@ as_arraylist_new(uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+
+		if (! list->elements) {
+			cf_free(list);
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -481,6 +491,10 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	if (! list2) {
+		return NULL;
+	}
+
 	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
@@ -501,7 +515,11 @@ as_arraylist_drop(const as_arraylist* list, uint32_t n)
 	uint32_t		sz		= list->size;
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(sz-c, list->block_size);
-	
+
+	if (! list2) {
+		return NULL;
+	}
+
 	list2->size = sz-c;
 	for(uint32_t i = c, j = 0; j < list2->size; i++, j++) {
 		if (list->elements[i]) {
@@ -523,6 +541,10 @@ as_arraylist_take(const as_arraylist* list, uint32_t n)
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(c, list->block_size);
 
+	if (! list2) {
+		return NULL;
+	}
+
 	list2->size = c;
 	for(uint32_t i = 0; i < c; i++) {
 		if (list->elements[i]) {
-- 
2.43.0


From b17f0d7d3accf98bbcdb6604dbd91d81c9dc208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:10 +0000
Subject: [PATCH 58/81] fix: report a list element that cannot be allocated

---
 src/main/aerospike/as_arraylist.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 22844ec..a6398f2 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -252,6 +252,10 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 static int
 as_arraylist_set_new(as_arraylist* list, uint32_t index, as_val* value)
 {
+	if (! value) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	int rc = as_arraylist_set(list, index, value);
 
 	if (rc != AS_ARRAYLIST_OK) {
@@ -326,6 +330,10 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 static int
 as_arraylist_insert_new(as_arraylist* list, uint32_t index, as_val* value)
 {
+	if (! value) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	int rc = as_arraylist_insert(list, index, value);
 
 	if (rc != AS_ARRAYLIST_OK) {
-- 
2.43.0


From ed46e11d7403e9e1c3f82226bf8ae4b3fb21275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:39 +0000
Subject: [PATCH 59/81] fix: free an ordered map whose table cannot be
 allocated

---
 src/main/aerospike/as_orderedmap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 01217a0..e722242 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -214,7 +214,12 @@ as_orderedmap_new(uint32_t capacity)
 
 	as_map_cons((as_map*)map, true, 1, &as_orderedmap_map_hooks);
 
-	return as_orderedmap_cons(map, capacity);
+	if (as_orderedmap_cons(map, capacity) == NULL) {
+		cf_free(map);
+		return NULL;
+	}
+
+	return map;
 }
 
 bool
-- 
2.43.0


From d60061e2751d76999bc9344962f89d3e982ed43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:39 +0000
Subject: [PATCH 60/81] fix: keep an ordered map's capacity when its table
 cannot grow

---
 src/main/aerospike/as_orderedmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index e722242..01e7acd 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -301,16 +301,17 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		// Near end of main table - insert directly.
 
 		if (map->count == map->capacity) {
-			map->capacity *= 2;
+			uint32_t capacity = map->capacity * 2;
 
 			map_entry* table = (map_entry*)cf_realloc(map->table,
-					map->capacity * sizeof(map_entry));
+					capacity * sizeof(map_entry));
 
 			if (table == NULL) {
 				return -1;
 			}
 
 			map->table = table;
+			map->capacity = capacity;
 		}
 
 		memmove(&map->table[ix + 1], &map->table[ix],
-- 
2.43.0


From 8f3ee8d54447a850288413091ff5599756d8f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:39 +0000
Subject: [PATCH 61/81] fix: report an ordered map hold table that cannot be
 allocated

---
 src/main/aerospike/as_orderedmap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 01e7acd..28118db 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -328,6 +328,15 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	if (map->hold_table == NULL) {
 		map->hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
 		map->hold_locations = cf_malloc(HOLD_TABLE_CAP * sizeof(uint32_t));
+
+		if (map->hold_table == NULL || map->hold_locations == NULL) {
+			cf_free(map->hold_table);
+			cf_free(map->hold_locations);
+			map->hold_table = NULL;
+			map->hold_locations = NULL;
+
+			return -1;
+		}
 	}
 
 	uint32_t hold_ix;
-- 
2.43.0


From 7aed382d0751397b866778b196b1c0082e4c67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:39 +0000
Subject: [PATCH 62/81] fix: retry a failed ordered map merge on the next
 insert

---
 src/main/aerospike/as_orderedmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 28118db..9d83bf4 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -357,7 +357,8 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	}
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
-		return -1; // previous merge failed
+		// Previous merge failed - insert after a successful merge.
+		return as_orderedmap_merge(map) ? as_orderedmap_set(map, key, val) : -1;
 	}
 
 	memmove(&map->hold_table[hold_ix + 1], &map->hold_table[hold_ix],
@@ -373,7 +374,7 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
 		as_orderedmap_merge(map);
-		// Ignore merge allocation failure, next insert will fail.
+		// Ignore merge allocation failure, next insert will try again.
 	}
 
 	return 0;
-- 
2.43.0


From d19303b643cdaae77553e3a80652f799c1718296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:39 +0000
Subject: [PATCH 63/81] fix: refuse an ordered map capacity that cannot be
 rounded up

---
 src/main/aerospike/as_orderedmap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 9d83bf4..ddd7535 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -54,6 +54,10 @@ static const as_iterator_hooks as_orderedmap_iterator_hooks;
 static as_orderedmap*
 as_orderedmap_cons(as_orderedmap* map, uint32_t capacity)
 {
+	if (capacity > UINT32_MAX - 8) {
+		return NULL;
+	}
+
 	map->count = 0;
 	map->capacity = ((capacity + 8) / 8) * 8; // can add 1 without realloc
 
-- 
2.43.0


From 1b80692691354686fad058adcfd7975bd2aadb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:12 +0000
Subject: [PATCH 64/81] fix: report a byte buffer whose storage cannot be
 allocated

---
 src/main/aerospike/as_bytes.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 39ef996..a84d9de 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -44,6 +44,15 @@ static inline as_bytes * as_bytes_cons(
 
     if ( value == NULL && size == 0 && capacity > 0 ) {
 	    bytes->value = cf_calloc(capacity, sizeof(uint8_t));
+
+	    if ( !bytes->value ) {
+		    bytes->capacity = 0;
+
+		    if ( free ) {
+			    cf_free(bytes);
+		    }
+		    return NULL;
+	    }
     }
     
 	return bytes;
-- 
2.43.0


From b4093468c69d1874e0d15252f38b2c0752c2b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:12 +0000
Subject: [PATCH 65/81] fix: release the key and value a string map setter
 could not store

---
 src/include/aerospike/as_stringmap.h | 39 +++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/include/aerospike/as_stringmap.h b/src/include/aerospike/as_stringmap.h
index 7b60f8d..e033491 100644
--- a/src/include/aerospike/as_stringmap.h
+++ b/src/include/aerospike/as_stringmap.h
@@ -39,7 +39,26 @@ extern "C" {
  */
 static inline int as_stringmap_set(as_map * m, const char * k, as_val * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), v);
+	as_string * key = as_string_new_strdup(k);
+	if ( !key ) return -1;
+
+	int rc = as_util_hook(set, 1, m, (as_val *) key, v);
+	if ( rc != 0 ) as_string_destroy(key);
+	return rc;
+}
+
+/**
+ *	@private
+ *	Set the specified key's value to a newly created value, which is destroyed
+ *	if it is refused.
+ */
+static inline int as_stringmap_set_new(as_map * m, const char * k, as_val * v)
+{
+	if ( !v ) return -1;
+
+	int rc = as_stringmap_set(m, k, v);
+	if ( rc != 0 ) as_val_destroy(v);
+	return rc;
 }
 
 /**
@@ -47,7 +66,7 @@ static inline int as_stringmap_set(as_map * m, const char * k, as_val * v)
  */
 static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_integer_new(v));
+	return as_stringmap_set_new(m, k, (as_val *) as_integer_new(v));
 }
 
 /**
@@ -55,7 +74,7 @@ static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v)
  */
 static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_double_new(v));
+	return as_stringmap_set_new(m, k, (as_val *) as_double_new(v));
 }
 
 /**
@@ -63,7 +82,7 @@ static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
  */
 static inline int as_stringmap_set_str(as_map * m, const char * k, const char * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_string_new_strdup(v));
+	return as_stringmap_set_new(m, k, (as_val *) as_string_new_strdup(v));
 }
 
 /**
@@ -71,7 +90,7 @@ static inline int as_stringmap_set_str(as_map * m, const char * k, const char *
  */
 static inline int as_stringmap_set_integer(as_map * m, const char * k, as_integer * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -79,7 +98,7 @@ static inline int as_stringmap_set_integer(as_map * m, const char * k, as_intege
  */
 static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_double * v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 	
 /**
@@ -87,7 +106,7 @@ static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_doub
  */
 static inline int as_stringmap_set_string(as_map * m, const char * k, as_string * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -95,7 +114,7 @@ static inline int as_stringmap_set_string(as_map * m, const char * k, as_string
  */
 static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -103,7 +122,7 @@ static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes *
  */
 static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -111,7 +130,7 @@ static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v)
  */
 static inline int as_stringmap_set_map(as_map * m, const char * k, as_map * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /******************************************************************************
-- 
2.43.0


From 057e76cf01d61708841ee3fe3c8aef93b569ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 66/81] fix: keep the packer's buffer when another cannot be
 allocated

---
 src/main/aerospike/as_msgpack.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 94f5a8c..9cb7f54 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -278,11 +278,14 @@ pack_resize(as_packer *pk, uint32_t sz)
 
 	size_t newcap = (size_t)((sz > (uint32_t)pk->capacity) ? sz : pk->capacity);
 
-	if (! (pk->buffer = (unsigned char *)cf_malloc(newcap))) {
+	unsigned char *buffer = (unsigned char *)cf_malloc(newcap);
+
+	if (! buffer) {
 		cf_free(entry);
 		return -1;
 	}
 
+	pk->buffer = buffer;
 	pk->capacity = (int)newcap;
 	pk->offset = 0;
 
-- 
2.43.0


From 27b93f1b3e1ba3e3bf4f2f31eb0785ba62e73e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 67/81] fix: report a serialized buffer that cannot be
 allocated

---
 src/main/aerospike/as_msgpack_serializer.c | 38 ++++++++++++++--------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/main/aerospike/as_msgpack_serializer.c b/src/main/aerospike/as_msgpack_serializer.c
index 4371f85..f772eea 100644
--- a/src/main/aerospike/as_msgpack_serializer.c
+++ b/src/main/aerospike/as_msgpack_serializer.c
@@ -104,6 +104,23 @@ static int32_t as_msgpack_serializer_serialize_presized(as_serializer *s, const
 	return packer.offset;
 }
 
+static void as_msgpack_serializer_free_buffers(as_packer *packer)
+{
+	as_packer_buffer *p = packer->head;
+
+	while (p) {
+		as_packer_buffer *tmp = p;
+		p = p->next;
+
+		// Free buffer entry.
+		cf_free(tmp->buffer);
+		cf_free(tmp);
+	}
+
+	// Free main buffer.
+	cf_free(packer->buffer);
+}
+
 static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as_buffer *buff)
 {
 	as_packer packer = {
@@ -122,20 +139,7 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 	
 	if (rc != 0) {
 		// Cleanup buffers on error.
-		as_packer_buffer *p = packer.head;
-		as_packer_buffer *tmp;
-
-		while (p) {
-			tmp = p;
-			p = p->next;
-			
-			// Free buffer entry.
-			cf_free(tmp->buffer);
-			cf_free(tmp);
-		}
-
-		// Free main buffer.
-		cf_free(packer.buffer);
+		as_msgpack_serializer_free_buffers(&packer);
 		return rc;
 	}
 
@@ -150,6 +154,12 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 		}
 
 		unsigned char *target = (unsigned char *)cf_malloc(size);
+
+		if (! target) {
+			as_msgpack_serializer_free_buffers(&packer);
+			return 1;
+		}
+
 		p = packer.head;
 		int offset = 0;
 
-- 
2.43.0


From a679002675623f8365828596b87ab7753b5eeb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 68/81] fix: report values that cannot be allocated while
 unpacking

---
 src/main/aerospike/as_msgpack.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 9cb7f54..1dad6c5 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -960,21 +960,21 @@ static inline int
 unpack_boolean(bool b, as_val **v)
 {
 	*v = (as_val *)as_boolean_new(b);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_integer_val(int64_t i, as_val **v)
 {
 	*v = (as_val *)as_integer_new(i);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_double_val(double d, as_val **v)
 {
 	*v = (as_val *)as_double_new(d);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static int
@@ -993,11 +993,29 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 
 	if (type == AS_BYTES_STRING) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val*)as_string_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else if (type == AS_BYTES_GEOJSON) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val *)as_geojson_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else {
 		as_bytes *b;
-- 
2.43.0


From ca84e2c40ca219ec82e3f920da1608f8e6238f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 69/81] fix: report exhausted memory while measuring or
 comparing deep values

---
 src/main/aerospike/as_msgpack.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 1dad6c5..2d6f46c 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -120,6 +120,11 @@ static msgpack_parse_memblock *
 msgpack_parse_memblock_create(msgpack_parse_memblock *prev)
 {
 	msgpack_parse_memblock *p = cf_malloc(sizeof(msgpack_parse_memblock));
+
+	if (! p) {
+		return NULL;
+	}
+
 	p->prev = prev;
 	p->count = 0;
 	return p;
@@ -142,6 +147,11 @@ msgpack_parse_memblock_next(msgpack_parse_memblock **block)
 
 	if (ptr->count >= MSGPACK_PARSE_MEMBLOCK_STATE_COUNT) {
 		ptr = msgpack_parse_memblock_create(ptr);
+
+		if (! ptr) {
+			return NULL;
+		}
+
 		*block = ptr;
 	}
 
@@ -1699,6 +1709,11 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return -1;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		state->index = 0;
@@ -1738,6 +1753,11 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return -1;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		state->index = 0;
@@ -1959,7 +1979,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
 			}
 
@@ -1969,7 +1989,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
 			}
 
@@ -2755,6 +2775,11 @@ msgpack_compare_deep(as_unpacker *pk1, as_unpacker *pk2,
 		bool (*cmp_init)(msgpack_parse_state *, as_unpacker *, as_unpacker *))
 {
 	msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+	if (! block) {
+		return MSGPACK_COMPARE_ERROR;
+	}
+
 	msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 	if (! cmp_init(state, pk1, pk2)) {
@@ -3043,7 +3068,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
@@ -3053,7 +3078,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-- 
2.43.0


From 2735a99520415b79450ca2e394121f94046f63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 70/81] fix: report copied strings that cannot be allocated

---
 src/main/aerospike/as_geojson.c | 7 ++++++-
 src/main/aerospike/as_string.c  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_geojson.c b/src/main/aerospike/as_geojson.c
index 3212643..f210115 100644
--- a/src/main/aerospike/as_geojson.c
+++ b/src/main/aerospike/as_geojson.c
@@ -69,7 +69,12 @@ as_geojson * as_geojson_new_wlen(char * value, size_t len, bool free)
 
 as_geojson *as_geojson_new_strdup(const char * s)
 {
-	return as_geojson_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_geojson * string = as_geojson_new(value, true);
+	if ( !string ) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index 1622648..86a74fc 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -57,7 +57,12 @@ as_string * as_string_new_wlen(char * value, size_t len, bool free)
 
 as_string *as_string_new_strdup(const char * s)
 {
-	return as_string_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_string * string = as_string_new(value, true);
+	if ( !string ) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From de98deffb1a463d02518697bf53707ebda17da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 71/81] fix: report a base name that cannot be allocated

---
 src/main/aerospike/as_string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index 86a74fc..56a6a68 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -138,6 +138,11 @@ const char* as_basename(as_string * filename, const char* path)
 
 		size_t len = (end - p) + 1;
 		char* str = cf_malloc(len + 1);
+
+		if (! str) {
+			return NULL;
+		}
+
 		memcpy(str, p, len);
 		*(str + len) = 0;
 		as_string_cons(filename, false, str, len, true);
-- 
2.43.0


From 41d7a2e89797a89a37928f971811d621800922c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 72/81] fix: report a counted block that cannot be allocated

---
 src/main/citrusleaf/cf_alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index e7e6f49..874364c 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -96,6 +96,10 @@ cf_rc_alloc(size_t sz)
 {
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
+	if (! head) {
+		return NULL;
+	}
+
 	head->count = 1;
 	head->sz = (uint32_t)sz;
 
-- 
2.43.0


From 9c068956422c595eb037c2a51b863fb64797a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 73/81] fix: leave a string builder empty when its buffer
 cannot be allocated

---
 src/main/aerospike/as_string_builder.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 6bf02e4..53a47e9 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -25,8 +25,12 @@ void
 as_string_builder_init(as_string_builder* sb, uint32_t capacity, bool resize)
 {
 	sb->data = (char*)cf_malloc(capacity);
-	sb->data[0] = 0;
-	sb->capacity = capacity;
+	sb->capacity = 0;
+
+	if (sb->data && capacity != 0) {
+		sb->data[0] = 0;
+		sb->capacity = capacity;
+	}
 	sb->length = 0;
 	sb->resize = resize;
 	sb->free = true;
@@ -95,6 +99,11 @@ as_sb_expand(as_string_builder* sb, const char* src)
 bool
 as_string_builder_append(as_string_builder* sb, const char* src)
 {
+	if (sb->capacity == 0) {
+		// There is no buffer yet.
+		return sb->resize ? as_sb_expand(sb, src) : *src == 0;
+	}
+
 	char* trg = &sb->data[sb->length];
 
 	while (*src) {
-- 
2.43.0


From 5c32271e94e0adb8cdffb0afdd71f6e186386ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:39 +0000
Subject: [PATCH 74/81] fix: report list and map texts that cannot be allocated

---
 src/main/aerospike/as_list.c | 24 ++++++++++++++++++++++--
 src/main/aerospike/as_map.c  | 27 +++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_list.c b/src/main/aerospike/as_list.c
index 31779d5..b69c4ec 100644
--- a/src/main/aerospike/as_list.c
+++ b/src/main/aerospike/as_list.c
@@ -98,7 +98,18 @@ static bool as_list_val_tostring_foreach(as_val * val, void * udata)
 
 	if ( data->pos + len + 2 >= data->cap ) {
 		uint32_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+
+		if ( !buf ) {
+			if ( str != NULL_STR ) {
+				cf_free(str);
+			}
+			cf_free(data->buf);
+			data->buf = NULL;
+			return false;
+		}
+
+		data->buf = buf;
 		data->cap += adj;
 	}
 
@@ -130,16 +141,25 @@ char * as_list_val_tostring(const as_val * v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) return NULL;
 
 	strcpy(data.buf, "[");
 	data.pos += 1;
 
 	if ( v ) {
 		as_list_foreach((as_list *) v, as_list_val_tostring_foreach, &data);
+		if ( !data.buf ) return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+
+		data.buf = buf;
 		data.cap += 2;
 	}
 
diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index 3a63847..9ec858a 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -91,7 +91,21 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	if ( data->pos + entlen >= data->cap ) {
 		uint32_t adj = entlen > data->blk ? entlen : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+
+		if ( !buf ) {
+			if (keystr != AS_MAP_NULL_STR) {
+				cf_free(keystr);
+			}
+			if (valstr != AS_MAP_NULL_STR) {
+				cf_free(valstr);
+			}
+			cf_free(data->buf);
+			data->buf = NULL;
+			return false;
+		}
+
+		data->buf = buf;
 		memset(data->buf + data->cap, 0, sizeof(char) * adj);
 		data->cap += adj;
 	}
@@ -135,16 +149,25 @@ char * as_map_val_tostring(const as_val* v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) return NULL;
 
 	strcpy(data.buf, "{");
 	data.pos += 1;
 	
 	if ( v ) {
 		as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data);
+		if ( !data.buf ) return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+
+		data.buf = buf;
 		data.cap += 2;
 	}
 
-- 
2.43.0


From 6c1b0fd06de9d752644a28982d8d36881640d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:30 +0000
Subject: [PATCH 75/81] fix: report number texts that cannot be allocated

---
 src/main/aerospike/as_double.c  | 1 +
 src/main/aerospike/as_integer.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_double.c b/src/main/aerospike/as_double.c
index 0eb51e2..e2bec92 100644
--- a/src/main/aerospike/as_double.c
+++ b/src/main/aerospike/as_double.c
@@ -80,6 +80,7 @@ as_double_val_tostring(const as_val * val)
 {
 	as_double* value_ptr = (as_double*)val;
 	char* str = (char*)cf_malloc(sizeof(char) * 64);
+	if (!str) return str;
 	sprintf(str, "%.16g", value_ptr->value);
 	return str;
 }
diff --git a/src/main/aerospike/as_integer.c b/src/main/aerospike/as_integer.c
index 2384453..f4da430 100644
--- a/src/main/aerospike/as_integer.c
+++ b/src/main/aerospike/as_integer.c
@@ -65,6 +65,7 @@ char * as_integer_val_tostring(const as_val * v)
 {
 	as_integer * i = (as_integer *) v;
 	char * str = (char *) cf_malloc(sizeof(char) * 32);
+	if (!str) return str;
 	memset(str, 0, 32);
 	sprintf(str, "%" PRId64, i->value);
 	return str;
-- 
2.43.0


From 6bc6320ff415faf58f3592fd30cb02dc4687331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:51 +0000
Subject: [PATCH 76/81] fix: record whether a timer is on the heap

as_timer_init() and as_timer_new() left is_malloc unset, so as_timer_destroy()
decided from stale memory whether to free the timer: a timer on the stack
could be freed, and one on the heap leaked.
---
 src/main/aerospike/as_timer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_timer.c b/src/main/aerospike/as_timer.c
index 6a56fbc..6abdacd 100644
--- a/src/main/aerospike/as_timer.c
+++ b/src/main/aerospike/as_timer.c
@@ -27,6 +27,7 @@
  */
 as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks * hooks) {
     if ( timer == NULL ) return timer;
+    timer->is_malloc = false;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
@@ -38,6 +39,7 @@ as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks *
 as_timer * as_timer_new(void * source, const as_timer_hooks * hooks) {
     as_timer * timer = (as_timer *) cf_malloc(sizeof(as_timer));
     if (!timer) return timer;
+    timer->is_malloc = true;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
-- 
2.43.0


From 8eb4982d446f19abc4d61a0224f69b7c5ea307d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:51 +0000
Subject: [PATCH 77/81] fix: check result allocation in as_success_new and
 as_failure_new

Both wrote through NULL when the result could not be allocated.
---
 src/main/aerospike/as_result.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 06a7f2e..550a63d 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -66,6 +66,7 @@ void as_result_destroy(as_result *r) {
 
 as_result * as_success_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = true;
     r->value = v;
     return(r);
@@ -73,6 +74,7 @@ as_result * as_success_new(as_val * v) {
 
 as_result * as_failure_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = false;
     r->value = v;
     return(r);
-- 
2.43.0


From f75c902849a43150578dc347eba398903e7e4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:51 +0000
Subject: [PATCH 78/81] fix: check allocation in as_aerospike_new

It wrote through NULL when the object could not be allocated.
---
 src/main/aerospike/as_aerospike.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aerospike/as_aerospike.c b/src/main/aerospike/as_aerospike.c
index f954f4b..db29f4b 100644
--- a/src/main/aerospike/as_aerospike.c
+++ b/src/main/aerospike/as_aerospike.c
@@ -33,6 +33,7 @@ as_aerospike * as_aerospike_init(as_aerospike * a, void * s, const as_aerospike_
 as_aerospike * as_aerospike_new(void * s, const as_aerospike_hooks * h)
 {
 	as_aerospike * a = (as_aerospike *) cf_rc_alloc(sizeof(as_aerospike));
+	if (!a) return a;
 	a->is_rcalloc = true;
 	a->source = s;
 	a->hooks = h;
-- 
2.43.0


From 931861cc76d5e311ea284ba4b356921fabfbb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:18 +0000
Subject: [PATCH 79/81] fix: refuse text that would take a string builder
 beyond 32-bit lengths

The length of the appended text and the required capacity were computed in
32 bits.  Text near or beyond 4 GB was silently cut or copied behind a
buffer that was too small.
---
 src/main/aerospike/as_string_builder.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 53a47e9..7b94b99 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -83,15 +83,15 @@ as_sb_increase_capacity(as_string_builder* sb, uint32_t min_capacity)
 static bool
 as_sb_expand(as_string_builder* sb, const char* src)
 {
-	uint32_t remaining_len = (uint32_t)strlen(src);
-	uint32_t min_capacity = sb->length + remaining_len + 1;
+	size_t remaining_len = strlen(src);
+	uint64_t min_capacity = (uint64_t)sb->length + remaining_len + 1;
 
-	if (! as_sb_increase_capacity(sb, min_capacity)) {
+	if (min_capacity > UINT32_MAX || ! as_sb_increase_capacity(sb, (uint32_t)min_capacity)) {
 		return false;
 	}
 
 	memcpy(&sb->data[sb->length], src, remaining_len);
-	sb->length += remaining_len;
+	sb->length += (uint32_t)remaining_len;
 	sb->data[sb->length] = 0;
 	return true;
 }
-- 
2.43.0


From 863dcc3b98eb608450e7a08fdfaf626a9241b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:38 +0000
Subject: [PATCH 80/81] fix: report memory exhaustion when a thread pool is
 started

The thread array and the dispatch queue were used without checking that they
had been allocated.
---
 src/main/aerospike/as_thread_pool.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 280f4de..4d4b305 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -64,16 +64,26 @@ as_thread_worker(void* data)
 int
 as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 {
+	pool->threads = NULL;
+	pool->dispatch_queue = NULL;
+	pool->fini_fn = NULL;
+	pool->thread_size = 0;
+
 	if (thread_size != 0) {
 		pool->threads = cf_calloc(thread_size, sizeof(pthread_t));
+
+		if (! pool->threads) {
+			return -3;
+		}
+
 		pool->dispatch_queue = cf_queue_create(sizeof(as_thread_pool_task), true);
+
+		if (! pool->dispatch_queue) {
+			cf_free(pool->threads);
+			pool->threads = NULL;
+			return -3;
+		}
 	}
-	else {
-		pool->threads = NULL;
-		pool->dispatch_queue = NULL;
-	}
-	pool->fini_fn = NULL;
-	pool->thread_size = 0;
 
 	// Start threads.
 	for (uint32_t i = 0; i < thread_size; i++) {
-- 
2.43.0


From 15a4d1e99e1c925d5e0c3faef609f15df9a8e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:38 +0000
Subject: [PATCH 81/81] fix: close a thread pool even when its queue can't grow

A shutdown message that could not be queued was dropped, its worker kept
waiting for tasks and the pool's destruction never returned.
---
 src/main/aerospike/as_thread_pool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 4d4b305..20237a9 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -16,6 +16,7 @@
  */
 #include <aerospike/as_thread_pool.h>
 #include <aerospike/as_atomic.h>
+#include <aerospike/as_sleep.h>
 #include <aerospike/as_thread.h>
 #include <citrusleaf/alloc.h>
 #include <string.h>
@@ -142,7 +143,11 @@ as_thread_pool_destroy(as_thread_pool* pool)
 
 	// Send shutdown signal for variable tasks.
 	for (uint32_t i = 0; i < thread_size; i++) {
-		cf_queue_push(pool->dispatch_queue, &task);
+		// The push only fails when a full queue can't grow, so wait for the
+		// workers to make room. A worker that isn't told would never be joined.
+		while (cf_queue_push(pool->dispatch_queue, &task) != CF_QUEUE_OK) {
+			as_sleep(1);
+		}
 	}
 
 	// Wait till threads finish.
-- 
2.43.0

