From d941a38a2f3efa52f36a775f24a2f259f3bfd4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 01/26] fix: find start sequence that overlaps a partial match

After a mismatch the matcher dropped the mismatching byte even if it was an
0x1b that begins (or continues) a start sequence, so a frame preceded by an
odd 0x1b was lost.
---
 sml/src/sml_transport.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..bf1cad5 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -79,6 +79,9 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// this byte may itself belong to a start sequence
+			len = (len == 4) ? 4 : 1;
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From 9e034b31634ef7c4b484cdf3a3c65afbeea3a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 02/26] fix: write the last entry of the object list

The list header announced n entries, but only n-1 were written.
---
 sml/src/sml_get_profile_pack_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..5020037 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -56,7 +56,7 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From eacb6db14a30dfc6f9127e5515f0496733d35e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 03/26] fix: write an empty tree path as an empty list

Nothing at all was written, which shifted all following elements.
---
 sml/src/sml_tree.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..2cc1a54 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -73,13 +73,11 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		return;
 	}
 
-	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
-		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
+	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
 
-		int i;
-		for (i = 0; i < tree_path->path_entries_len; i++) {
-			sml_octet_string_write(tree_path->path_entries[i], buf);
-		}
+	int i;
+	for (i = 0; i < tree_path->path_entries_len; i++) {
+		sml_octet_string_write(tree_path->path_entries[i], buf);
 	}
 }
 
-- 
2.43.0


From ee44493bc16a8aeeec452c05869248bc20db11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 04/26] fix: do not leak the previous crc when a message is
 written again

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..431b170 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc);
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From 002c9f3c8b8869cf2fc2b502577dee97e70c61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 05/26] fix: reject a message body without a tag

The message was returned without a body, which users dereference, and the
remaining elements were assigned to the wrong fields.
---
 sml/src/sml_message.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 431b170..6ca8504 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -167,8 +167,10 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	}
 
 	msg_body->tag = sml_u32_parse(buf);
-	if (sml_buf_has_errors(buf) || msg_body->tag == NULL)
+	if (sml_buf_has_errors(buf) || msg_body->tag == NULL) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(msg_body->tag)) {
 	case SML_MESSAGE_OPEN_REQUEST:
-- 
2.43.0


From e6f2668efaa54a31f82cb3d500933adbe3835fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 06/26] fix: reject a proc parameter value without a tag

Its data stayed unread and was taken for the next element.
---
 sml/src/sml_tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 2cc1a54..79ce0a1 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -229,8 +229,10 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 	}
 
 	ppv->tag = sml_u8_parse(buf);
-	if (sml_buf_has_errors(buf) || !(ppv->tag))
+	if (sml_buf_has_errors(buf) || !(ppv->tag)) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(ppv->tag)) {
 	case SML_PROC_PAR_VALUE_TAG_VALUE:
-- 
2.43.0


From f525005d1798a4194429ba26bfa65cfc7322918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 07/26] fix: signal an error for a time of the wrong type,
 accept one without value

sml_time_parse() returned NULL without an error, so the unread value was taken
for the next element. A time without value is what sml_time_write() writes for
a time that was received as a list.
---
 sml/src/sml_time.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..cbdb488 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -59,6 +59,13 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			goto error;
 	}
 
+	if (sml_buf_optional_is_skipped(buf)) {
+		// a time without value, as written by sml_time_write()
+		if (sml_buf_has_errors(buf))
+			goto error;
+		return tme;
+	}
+
 	int type = sml_buf_get_next_type(buf);
 	switch (type) {
 	case SML_TYPE_UNSIGNED:
@@ -107,6 +114,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
-- 
2.43.0


From b28942b35dc11ae03d479975e47526de9850c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 08/26] fix: reject a length that does not fit an int

The value overflowed and a huge length was read as a small or negative one.
---
 sml/src/sml_shared.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..192fb2c 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -16,6 +16,7 @@
 // You should have received a copy of the GNU General Public License
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
+#include <limits.h>
 #include <sml/sml_shared.h>
 #include <stdio.h>
 #include <string.h>
@@ -33,6 +34,10 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 
 	for (; buf->cursor < buf->buffer_len;) {
 		byte = sml_buf_get_current_byte(buf);
+		if (length > (INT_MAX >> 4)) { // does not fit
+			buf->error = 1;
+			return -1;
+		}
 		length <<= 4;
 		length |= (byte & SML_LENGTH_FIELD);
 
-- 
2.43.0


From e6b1203512ff0a4b38dca765d212869b464495cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 09/26] fix: do not take the sign of an empty integer from the
 next element

---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..dd6c383 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -107,7 +107,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	b = sml_buf_get_current_byte(buf);
-	if (type == SML_TYPE_INTEGER && (b & 128)) {
+	if (type == SML_TYPE_INTEGER && l > 0 && (b & 128)) {
 		negative_int = 1;
 	}
 
-- 
2.43.0


From ae02bbea616ca80d557988965632258d9a0d5f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 10/26] fix: reject numbers of more than 8 bytes in values and
 states

The rounded up size of 16 does not fit the length field of the type: the
result had a wrong type and could not be converted or written.
---
 sml/src/sml_status.c | 4 ++++
 sml/src/sml_value.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..0af242d 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -42,6 +42,10 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		status->data.status8 = sml_number_parse(buf, type, max);
 		status->type |= max;
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..b57921e 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -45,6 +45,10 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		value->data.uint8 = sml_number_parse(buf, type, max);
 		value->type |= max;
-- 
2.43.0


From 7d9bee1a29244987560ab97775e77894f4c0dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 11/26] fix: apply the DZG workaround to integer values only

Other values were turned into an unsigned of size 0, leaking their contents.
---
 sml/src/sml_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..7400f7a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,6 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
+			   (l->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER &&
 			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
-- 
2.43.0


From 0b5533616ecc575530bc5155b5f755968606a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 12/26] fix: count more than 32767 messages in a file

The counter overflowed to a negative number and sml_file_add_message() asked
for a huge block. The layout of sml_file does not change.
---
 sml/include/sml/sml_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_file.h b/sml/include/sml/sml_file.h
index d864d40..b6cd76f 100644
--- a/sml/include/sml/sml_file.h
+++ b/sml/include/sml/sml_file.h
@@ -30,7 +30,7 @@ extern "C" {
 // a SML file consist of multiple SML messages
 typedef struct {
 	sml_message **messages;
-	short messages_len;
+	int messages_len;
 	sml_buffer *buf;
 } sml_file;
 
-- 
2.43.0


From 98f03c79b9c07d782692eb361afe3f9577927ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 13/26] fix: compare unequal to a hex string of odd length
 instead of crashing

---
 sml/src/sml_octet_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..40e5c6d 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -131,6 +131,9 @@ int sml_octet_string_cmp(octet_string *s1, octet_string *s2) {
 
 int sml_octet_string_cmp_with_hex(octet_string *str, char *hex) {
 	octet_string *hstr = sml_octet_string_init_from_hex(hex);
+	if (hstr == NULL) {
+		return -1; // not a hex string
+	}
 	if (str->len != hstr->len) {
 		sml_octet_string_free(hstr);
 		return -1;
-- 
2.43.0


From 5ce3c56721421a9ba0bbaea9bc4ece3716f8357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 14/26] fix: write the length of long strings and lists
 correctly

---
 sml/src/sml_shared.c | 52 +++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index 192fb2c..f549598 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -60,49 +60,31 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 }
 
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
-	// set the type
-	buf->buffer[buf->cursor] = type;
-
+	// the length of everything but a list includes the TL-fields
+	unsigned long long length = l;
+	unsigned int tl_fields = 1;
 	if (type != SML_TYPE_LIST) {
-		l++;
+		length++;
 	}
 
-	if (l > SML_LENGTH_FIELD) {
-
-		// how much shifts are necessary
-		int mask_pos = (sizeof(unsigned int) * 2) - 1;
-
-		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
-
-		// select the next 4 most significant bits with a bit set until there
-		// is something
-		while (!(mask & l)) {
-			mask >>= 4;
-			mask_pos--;
-		}
-
-		l += mask_pos; // for every TL-field
-
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
-			l++;
+	// how many TL-fields are necessary
+	while (length >> (4 * tl_fields)) {
+		tl_fields++;
+		if (type != SML_TYPE_LIST) {
+			length++;
 		}
+	}
 
-		// copy 4 bits of the number to the buffer
-		while (mask > SML_LENGTH_FIELD) {
+	// 4 bits of the length per TL-field, the type is set in the first one
+	while (tl_fields > 0) {
+		tl_fields--;
+		buf->buffer[buf->cursor] = type | ((length >> (4 * tl_fields)) & SML_LENGTH_FIELD);
+		if (tl_fields > 0) {
 			buf->buffer[buf->cursor] |= SML_ANOTHER_TL;
-			buf->buffer[buf->cursor] |= ((mask & l) >> (4 * mask_pos));
-			mask >>= 4;
-			mask_pos--;
-			buf->cursor++;
 		}
+		buf->cursor++;
+		type = 0;
 	}
-
-	buf->buffer[buf->cursor] |= (l & SML_LENGTH_FIELD);
-	buf->cursor++;
 }
 
 int sml_buf_has_errors(sml_buffer *buf) { return buf->error != 0; }
-- 
2.43.0


From 5ca2894a5af8b09d2fd2d3e64df51f10ce36ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 15/26] fix: enlarge the buffer when writing more than fits

---
 sml/include/sml/sml_shared.h |  5 ++++-
 sml/src/sml_boolean.c        |  1 +
 sml/src/sml_message.c        |  1 +
 sml/src/sml_number.c         |  1 +
 sml/src/sml_octet_string.c   |  1 +
 sml/src/sml_shared.c         | 12 ++++++++++++
 sml/src/sml_transport.c      |  2 ++
 7 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_shared.h b/sml/include/sml/sml_shared.h
index 86dec36..6240d0c 100644
--- a/sml/include/sml/sml_shared.h
+++ b/sml/include/sml/sml_shared.h
@@ -64,7 +64,7 @@ typedef int64_t i64;
 //
 // Writing: At the beginning the buffer field is malloced and zeroed with
 //          a default length, this default length is stored in buffer_len
-//          (i.e. the maximum bytes one can write to this buffer)
+//          (i.e. the bytes one can write to this buffer before it is enlarged)
 //          cursor points to the position, where on can write during the
 //          writing process. If a file is completely written to the buffer,
 //          cursor is the number of bytes written to the buffer.
@@ -80,6 +80,9 @@ sml_buffer *sml_buffer_init(size_t length);
 
 void sml_buffer_free(sml_buffer *buf);
 
+// Enlarges the buffer if less than length bytes can be written at the cursor position.
+void sml_buffer_reserve(sml_buffer *buf, size_t length);
+
 // Returns the length of the following data structure. Sets the cursor position to
 // the value field.
 int sml_buf_get_next_length(sml_buffer *buf);
diff --git a/sml/src/sml_boolean.c b/sml/src/sml_boolean.c
index b1a8548..6a60c6b 100644
--- a/sml/src/sml_boolean.c
+++ b/sml/src/sml_boolean.c
@@ -62,6 +62,7 @@ void sml_boolean_write(sml_boolean *boolean, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_BOOLEAN, 1);
+	sml_buffer_reserve(buf, 1);
 	if (*boolean == SML_BOOLEAN_FALSE) {
 		buf->buffer[buf->cursor] = SML_BOOLEAN_FALSE;
 	} else {
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 6ca8504..93d6b9e 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -141,6 +141,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
+	sml_buffer_reserve(buf, 1);
 	buf->buffer[buf->cursor] = 0x0;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index dd6c383..3c9b746 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -135,6 +135,7 @@ void sml_number_write(void *np, unsigned char type, int size, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, type, size);
+	sml_buffer_reserve(buf, size);
 	memcpy(sml_buf_get_current_buf(buf), np, size);
 
 	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 40e5c6d..cbb20af 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -95,6 +95,7 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
+	sml_buffer_reserve(buf, str->len);
 	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
 	buf->cursor += str->len;
 }
diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index f549598..27a05a9 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -75,6 +75,8 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		}
 	}
 
+	sml_buffer_reserve(buf, tl_fields);
+
 	// 4 bits of the length per TL-field, the type is set in the first one
 	while (tl_fields > 0) {
 		tl_fields--;
@@ -114,7 +116,17 @@ sml_buffer *sml_buffer_init(size_t length) {
 	return buf;
 }
 
+void sml_buffer_reserve(sml_buffer *buf, size_t length) {
+	if (buf->cursor + length > buf->buffer_len) {
+		size_t buffer_len = 2 * (buf->cursor + length);
+		buf->buffer = (unsigned char *)realloc(buf->buffer, buffer_len);
+		memset(buf->buffer + buf->buffer_len, 0, buffer_len - buf->buffer_len);
+		buf->buffer_len = buffer_len;
+	}
+}
+
 void sml_buf_optional_write(sml_buffer *buf) {
+	sml_buffer_reserve(buf, 1);
 	buf->buffer[buf->cursor] = SML_OPTIONAL_SKIPPED;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index bf1cad5..cad1350 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -132,6 +132,7 @@ int sml_transport_write(int fd, sml_file *file) {
 	buf->cursor = 0;
 
 	// add start sequence
+	sml_buffer_reserve(buf, 8);
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
@@ -140,6 +141,7 @@ int sml_transport_write(int fd, sml_file *file) {
 
 	// add padding bytes
 	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;
+	sml_buffer_reserve(buf, padding + 8); // and the end sequence
 	if (padding) {
 		// write zeroed bytes
 		memset(sml_buf_get_current_buf(buf), 0, padding);
-- 
2.43.0


From 46e3ffbb84b24dbaeaa7a2a3e51624b847dcd6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 16/26] fix: reject a time list that has not three elements

---
 sml/src/sml_time.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index cbdb488..2d2d16e 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -77,7 +77,10 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 		// Some meters (e.g. FROETEC Multiflex ZG22) giving not one uint32
 		// as timestamp, but a list of 3 values.
 		// Ignoring these values, so that parsing does not fail.
-		sml_buf_get_next_length(buf); // should we check the length here?
+		if (sml_buf_get_next_length(buf) != 3) {
+			buf->error = 1;
+			goto error;
+		}
 		u32 *t1 = sml_u32_parse(buf);
 		if (sml_buf_has_errors(buf)) {
 			if (t1)
-- 
2.43.0


From fcdf7e4a930534b86d8235ce9624e2f4be15bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 17/26] fix: return no object from a parse that failed

---
 sml/src/sml_list.c    | 3 +++
 sml/src/sml_message.c | 4 ++++
 sml/src/sml_tree.c    | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 7400f7a..b860fbc 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -49,6 +49,9 @@ sml_sequence *sml_sequence_parse(sml_buffer *buf, void *(*elem_parse)(sml_buffer
 		}
 		sml_sequence_add(seq, p);
 	}
+	if (sml_buf_has_errors(buf)) {
+		goto haserrors;
+	}
 
 	return seq;
 
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 93d6b9e..8e92d3c 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -220,6 +220,10 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 		fprintf(stderr, "libsml: error: message type %04X not yet implemented\n", *(msg_body->tag));
 		break;
 	}
+	if (sml_buf_has_errors(buf)) {
+		sml_message_body_free(msg_body);
+		return NULL;
+	}
 
 	return msg_body;
 
diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 79ce0a1..40d5be3 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -50,6 +50,8 @@ sml_tree_path *sml_tree_path_parse(sml_buffer *buf) {
 			sml_tree_path_add_path_entry(tree_path, s);
 		}
 	}
+	if (sml_buf_has_errors(buf))
+		goto error;
 
 	return tree_path;
 
@@ -151,6 +153,8 @@ sml_tree *sml_tree_parse(sml_buffer *buf) {
 			}
 		}
 	}
+	if (sml_buf_has_errors(buf))
+		goto error;
 
 	return tree;
 
@@ -251,6 +255,8 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 		buf->error = 1;
 		goto error;
 	}
+	if (sml_buf_has_errors(buf))
+		goto error;
 
 	return ppv;
 
-- 
2.43.0


From 9bebf24540bc0ff16c678fbd97b4df42176cd8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 18/26] fix: signal an error for an unknown message type

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 8e92d3c..ef73dd6 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -218,6 +218,7 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 		break;
 	default:
 		fprintf(stderr, "libsml: error: message type %04X not yet implemented\n", *(msg_body->tag));
+		buf->error = 1; // the body cannot be skipped
 		break;
 	}
 	if (sml_buf_has_errors(buf)) {
-- 
2.43.0


From 7719c8ef0e86507415537a547a68919aa0fcb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 19/26] fix: deliver a frame that fills the caller's buffer
 exactly

---
 sml/src/sml_transport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index cad1350..4c82a6d 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -88,7 +88,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	}
 
 	// found start sequence
-	while ((len + 8) < max_len) {
+	while ((len + 8) <= max_len) {
 		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
 			return 0;
 		}
-- 
2.43.0


From 659f2617c9c83e1176b53baa6c02f7551f10a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 20/26] fix: append to the end in sml_list_add

---
 sml/src/sml_list.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index b860fbc..c2a8677 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -113,7 +113,12 @@ sml_list *sml_list_init() {
 	return s;
 }
 
-void sml_list_add(sml_list *list, sml_list *new_entry) { list->next = new_entry; }
+void sml_list_add(sml_list *list, sml_list *new_entry) {
+	while (list->next) { // append, so that no entry gets lost
+		list = list->next;
+	}
+	list->next = new_entry;
+}
 
 /* Note: this gets invoked for _every_ object seen */
 static bool detect_buggy_dzg_dvs74(sml_list *l)
-- 
2.43.0


From f86272ec520457d7bf77afaed4a7b03c62bee42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 21/26] fix: give an empty octet string an empty text

sml_value_to_strhex returned NULL and left *result unset; sml_server printed
and freed that.
---
 sml/src/sml_value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index b57921e..71386e1 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -150,9 +150,10 @@ double sml_value_to_double(sml_value *value) {
 char *sml_value_to_strhex(sml_value *value, char **result, bool mixed) {
 	const char hex_str[] = "0123456789abcdef";
 
-	if (value == NULL || value->data.bytes == NULL || value->data.bytes->str == NULL)
+	if (value == NULL || value->data.bytes == NULL)
 		return NULL;
 
+	// an empty octet string (str is NULL, len is 0) gives an empty string
 	int len = value->data.bytes->len;
 	unsigned char *str = value->data.bytes->str;
 
-- 
2.43.0


From 38c480288246c31add913591b911aa3818855a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 22/26] fix: close the source of randomness after creating an
 id

Built with SML_NO_UUID_LIB, every new message left a descriptor open; once
there were no more, all further messages had the same transaction id.
---
 sml/src/sml_octet_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index cbb20af..60d4d94 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -111,6 +111,7 @@ octet_string *sml_octet_string_generate_uuid() {
 #ifdef __linux__
 	int fd = open("/dev/urandom", O_RDONLY);
 	read(fd, uuid, 16);
+	close(fd);
 #else
 	int i;
 	for (i = 0; i < 16; i++) {
-- 
2.43.0


From 1b2dc451dcbef06612ddac3a1261f557f5309bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 23/26] fix: read a frame into the caller's buffer instead of a
 copy on the stack

A length larger than the stack ended the program, whatever the stream held.
---
 sml/src/sml_transport.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 4c82a6d..71262e6 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -62,8 +62,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	FD_ZERO(&readfds);
 	FD_SET(fd, &readfds);
 
-	unsigned char buf[max_len];
-	memset(buf, 0, max_len);
+	unsigned char *buf = buffer; // of any size, so not on the stack
 	unsigned int len = 0;
 
 	if (max_len < 8) {
@@ -103,7 +102,6 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 			if (buf[len] == 0x1a) {
 				// found end sequence
 				len += 4;
-				memcpy(buffer, &(buf[0]), len);
 				return len;
 			} else {
 				// don't read other escaped sequences yet
-- 
2.43.0


From 0274de86a5e5bb521e71cdff36d96d02e1a1433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 24/26] fix: encode the absent body of a fresh message as
 absent

---
 sml/src/sml_message.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index ef73dd6..b2c5e1d 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -240,6 +240,11 @@ sml_message_body *sml_message_body_init(u32 tag, void *data) {
 }
 
 void sml_message_body_write(sml_message_body *message_body, sml_buffer *buf) {
+	if (message_body == 0) {
+		sml_buf_optional_write(buf);
+		return;
+	}
+
 	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, 2);
 	sml_u32_write(message_body->tag, buf);
 
-- 
2.43.0


From 9d7813a01c029190e60046d05be8e598441af5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 25/26] fix: convert hex text of any length without the stack

---
 sml/src/sml_octet_string.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 60d4d94..cad9252 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -49,11 +49,13 @@ octet_string *sml_octet_string_init_from_hex(char *str) {
 	if (len % 2 != 0) {
 		return NULL;
 	}
-	unsigned char bytes[len / 2];
+	unsigned char *bytes = malloc(len / 2 + 1); // of any size, so not on the stack
 	for (i = 0; i < (len / 2); i++) {
 		bytes[i] = c2ptoi(&(str[i * 2]));
 	}
-	return sml_octet_string_init(bytes, len / 2);
+	octet_string *s = sml_octet_string_init(bytes, len / 2);
+	free(bytes);
+	return s;
 }
 
 void sml_octet_string_free(octet_string *str) {
-- 
2.43.0


From 45e87293883aa9325985a10c2288f1ba5c45390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 26/26] fix: read from descriptors beyond FD_SETSIZE

---
 sml/src/sml_transport.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 71262e6..3222aba 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -17,6 +17,7 @@
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <errno.h> // for errno
+#include <poll.h>
 #include <sml/sml_crc16.h>
 #include <sml/sml_shared.h>
 #include <sml/sml_transport.h>
@@ -32,14 +33,16 @@ unsigned char esc_seq[] = {0x1b, 0x1b, 0x1b, 0x1b};
 unsigned char start_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x01, 0x01, 0x01, 0x01};
 unsigned char end_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x1a};
 
-size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
+size_t sml_read(int fd, unsigned char *buffer, size_t len) {
+
+	// not select(), which is limited to descriptors below FD_SETSIZE
+	struct pollfd pfd = {.fd = fd, .events = POLLIN};
 
 	ssize_t r = 0;
 	size_t tr = 0;
 
 	while (tr < len) {
-		select(fd + 1, set, 0, 0, 0);
-		if (FD_ISSET(fd, set)) {
+		if (fd < 0 || poll(&pfd, 1, -1) != 0) {
 
 			r = read(fd, &(buffer[tr]), len - tr);
 			if (r == 0)
@@ -58,10 +61,6 @@ size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
 
 size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
-	fd_set readfds;
-	FD_ZERO(&readfds);
-	FD_SET(fd, &readfds);
-
 	unsigned char *buf = buffer; // of any size, so not on the stack
 	unsigned int len = 0;
 
@@ -72,7 +71,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	}
 
 	while (len < 8) {
-		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
+		if (sml_read(fd, &(buf[len]), 1) == 0) {
 			return 0;
 		}
 
@@ -88,14 +87,14 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 	// found start sequence
 	while ((len + 8) <= max_len) {
-		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+		if (sml_read(fd, &(buf[len]), 4) == 0) {
 			return 0;
 		}
 
 		if (memcmp(&buf[len], esc_seq, 4) == 0) {
 			// found esc sequence
 			len += 4;
-			if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+			if (sml_read(fd, &(buf[len]), 4) == 0) {
 				return 0;
 			}
 
-- 
2.43.0

