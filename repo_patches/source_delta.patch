From 128620e85a76b9be8cc892257d7e124451f3c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 01/14] fix: do not read past the end of the coded packet when
 the parity bits fill whole bytes

---
 src/horus_l2.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/horus_l2.c b/src/horus_l2.c
index 96cb0d1..c9f0083 100644
--- a/src/horus_l2.c
+++ b/src/horus_l2.c
@@ -304,9 +304,8 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
     unsigned char *pin  = input_rx_data;
     int            ninbit, ingolay, ningolay, paritybyte, nparitybits;
     int            ninbyte, shift, inbit, golayparitybit, i, outbit, outbyte, noutbits, outdata;
-    #if defined(SCRAMBLER) || defined(INTERLEAVER)
     int num_tx_data_bytes = horus_l2_get_num_tx_data_bytes(num_payload_data_bytes);
-    #endif
+    unsigned char *pend = input_rx_data + num_tx_data_bytes; /* one past the last byte of the packet */
     
     /* optional scrambler and interleaver - we dont interleave UW */
 
@@ -368,7 +367,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                 if (i != 10)
                     ingolay <<=1;
                 nparitybits++;
-                if ((nparitybits % 8) == 0) {
+                if (((nparitybits % 8) == 0) && (pin < pend)) {
                     /* OK grab a new byte */
                     paritybyte = *pin++;
                     #ifdef DEBUG0
@@ -426,7 +425,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
             if (i != 10)
                 golayparity <<=1;
             nparitybits++;
-            if ((nparitybits % 8) == 0) {
+            if (((nparitybits % 8) == 0) && (pin < pend)) {
                 /* OK grab a new byte */
                 paritybyte = *pin++;
                 #ifdef DEBUG0
-- 
2.43.0


From 84070b2092489b9f58e23abc5448b78f3a3829f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 02/14] fix: keep RTTY extraction inside the received bits and
 the caller's output buffer

---
 src/horus_api.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 01cd1a9..7a5bfed 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -336,7 +336,8 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     int st = uw_loc;                                    /* first bit of first char        */
     int en = st + hstates->max_packet_len - nfield;          /* last bit of max length packet  */
 
-    if (en > hstates->rx_bits_len){
+    /* the last character starts before en, but its bits extend beyond it */
+    if (st + hstates->max_packet_len > hstates->rx_bits_len){
         if (hstates->verbose) {
             fprintf(stderr,"not enough data yet");
         }
@@ -391,7 +392,9 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 fprintf(stderr, "  begin endpacket\n");
             }
             // Only process up to the next 5 characters (checksum + line ending)
-            en = i + (ascii_bits+stop_bits+1)*5;
+            int en_crc = i + (ascii_bits+stop_bits+1)*5;
+            if (en_crc < en)
+                en = en_crc; /* never beyond the end of a max length packet */
         }
 
         /* build up output array, really only need up to tx crc but
@@ -825,13 +828,13 @@ int horus_get_max_demod_in(struct horus *hstates) {
 int horus_get_max_ascii_out_len(struct horus *hstates) {
     assert(hstates != NULL);
     if (hstates->mode == HORUS_MODE_RTTY_7N1) {
-        return hstates->max_packet_len/9;     /* 7 bit ASCII, plus 3 sync bits */
+        return hstates->max_packet_len/9 + 1;     /* 7 bit ASCII, plus 3 sync bits, and a terminator */
     }
     if (hstates->mode == HORUS_MODE_RTTY_7N2) {
-        return hstates->max_packet_len/10;     /* 7 bit ASCII, plus 3 sync bits */
+        return hstates->max_packet_len/10 + 1;     /* 7 bit ASCII, plus 3 sync bits, and a terminator */
     }
     if (hstates->mode == HORUS_MODE_RTTY_8N2) {
-        return hstates->max_packet_len/11;     /* 8 bit ASCII, plus 3 sync bits */
+        return hstates->max_packet_len/11 + 1;     /* 8 bit ASCII, plus 3 sync bits, and a terminator */
     }
     if (hstates->mode == HORUS_MODE_BINARY_V1) {
         //return (HORUS_BINARY_V1_NUM_UNCODED_PAYLOAD_BYTES*2+1);     /* Hexadecimal encoded */
-- 
2.43.0


From bc33dd891613944fa45924439ffe261c45b89d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 03/14] fix: only look for the end of the RTTY $ prefix in
 characters of this sentence

---
 src/horus_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 7a5bfed..2789655 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -376,7 +376,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             endpacket = 1;
             rtty_start = 0;
             // Find the end of the $$s
-            for(k = 0; k<8; k++){
+            for(k = 0; k<8 && k<nout; k++){
                 if(ascii_out[k] != 36){
                     rtty_start = k;
                     break;
-- 
2.43.0


From 1e8b0db64d1c57d986b27723d7634cc5f3712cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 04/14] fix: reject RTTY sentences whose checksum field is not
 hexadecimal

---
 src/horus_api.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 2789655..15db152 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -410,14 +410,17 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     //fprintf(stderr, "\n\ntx CRC...\n");
     if (endpacket && (pout > (ptx_crc+3))) {
         tx_crc = 0;
+        crc_ok = 1;
         for(i=0; i<4; i++) {
+            if (hex2int(ptx_crc[i]) < 0)
+                crc_ok = 0; /* not a checksum at all */
             tx_crc <<= 4;
             tx_crc |= hex2int(ptx_crc[i]);
             if (hstates->verbose){
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = (tx_crc == rx_crc);
+        crc_ok = crc_ok && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From 9ad8e01bdfe5d5d0bdac235acc8b02febed5a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 05/14] fix: clear every UW near a received RTTY sentence, so
 it is reported once

---
 src/horus_api.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 15db152..7873612 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -717,8 +717,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int packet_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - packet_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -734,8 +735,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int packet_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - packet_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -750,8 +752,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int packet_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - packet_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
-- 
2.43.0


From 314aeb6c5ddb3b219f2300f61d3ed948d1fff05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 06/14] fix: free the soft bits on close, and start with a
 defined packet version

---
 src/horus_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/horus_api.c b/src/horus_api.c
index 7873612..61e19b8 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -251,6 +251,7 @@ struct horus *horus_open_advanced_sample_rate (int mode, int Rs, int tx_tone_spa
 
     hstates->crc_ok = 0;
     hstates->total_payload_bits = 0;
+    hstates->version = 0;
     
     return hstates;
 }
@@ -259,6 +260,7 @@ void horus_close (struct horus *hstates) {
     assert(hstates != NULL);
     fsk_destroy(hstates->fsk);
     free(hstates->rx_bits);
+    free(hstates->soft_bits);
     free(hstates);
 }
 
-- 
2.43.0


From 68edbc50c133a21a435839712a4a0061237eeed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 07/14] fix: clip the minutes of a v2 packet at 59 instead of
 replacing them

---
 horusdemodlib/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 97e19b8..0b35b81 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -218,7 +218,7 @@ class Encoder():
             minutes = int(minutes)
             if minutes < 0:
                 minutes = 0
-            elif minutes < 59:
+            elif minutes > 59:
                 minutes = 59
 
             seconds = int(seconds)
-- 
2.43.0


From ae663f427abac1f67b23929f05e93266cc64ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 08/14] fix: clip a large descent rate to the most negative
 value, not past the most positive

---
 horusdemodlib/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 0b35b81..820b579 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -283,7 +283,7 @@ class Encoder():
         # Ascent rate is in the range -327.68 to 327.67 m/s
         ascent_rate_100 = int(ascent_rate*100)
         if ascent_rate_100 < -32768:
-            ascent_rate_100 = 32768
+            ascent_rate_100 = -32768
         elif ascent_rate_100 > 32767:
             ascent_rate_100 = 32767
 
-- 
2.43.0


From b9940a46cf92959ec58c58d55ebae07029c8a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 09/14] fix: do not form a pointer beyond the caller's RTTY
 output buffer

---
 src/horus_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 61e19b8..7222bac 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -410,7 +410,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     /* if we found the end of packet flag and have enough chars to compute checksum ... */
 
     //fprintf(stderr, "\n\ntx CRC...\n");
-    if (endpacket && (pout > (ptx_crc+3))) {
+    if (endpacket && (pout - ptx_crc > 3)) {
         tx_crc = 0;
         crc_ok = 1;
         for(i=0; i<4; i++) {
-- 
2.43.0


From c2878b2912f5d28294407afdcbd2cfe203cc03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 10/14] fix: refuse a packet whose latitude or longitude is not
 a number

---
 horusdemodlib/delegates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index d6ba793..b6c404d 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -92,7 +92,8 @@ def decode_degree_float(data:float) -> str:
     if type(data) != float:
         raise ValueError("decimal_degrees - Invalid input type.")
 
-    if (data < -180.0) or (data > 180.0):
+    # Note that a NaN is neither below -180 nor above 180.
+    if not (-180.0 <= data <= 180.0):
         raise ValueError(f"decimal_degrees - Value ({data}) out of range -180 - 180.")
 
     return (data, f"{data:.5f}")
-- 
2.43.0


From cb4a30ad910f8c03ec78e18dc3045e19e5fa7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 11/14] fix: pad short input of the modem to the samples it
 reads

HorusLib.demodulate handed horus_rx a buffer with fewer than nin samples when
resampling shortened it, or at the end of a file, which horus_rx then read past.
---
 horusdemodlib/demod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 5b234e5..a05f3a4 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -181,6 +181,9 @@ class HorusLib():
         # resample to 48khz
         (demod_in, self.resampler_state) = audioop.ratecv(demod_in, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
 
+        # The modem always reads nin samples, but we may have been given fewer (end of a file), or
+        # resampling may have resulted in slightly fewer. Extend them with silence in this case.
+        demod_in = demod_in.ljust(self.nin * 2 * (1+int(self.stereo_iq)), b'\x00')
 
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
-- 
2.43.0


From 255ddb7b0cb52544c66bd3ac8c5758ef6883ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 12/14] fix: skip a line which is not hexadecimal in the
 uploader

codecs.decode raises binascii.Error, a ValueError, which stopped the uploader.
---
 horusdemodlib/uploader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index bf0f4df..df0c6c6 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -214,7 +214,7 @@ def main():
                 logging.info(f"Received raw binary packet: {data}")
                 try:
                     _binary_string = codecs.decode(data, 'hex')
-                except TypeError as e:
+                except (TypeError, ValueError) as e:
                     logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
                     continue
 
-- 
2.43.0


From 3fab48850f6345ae619fa4915304a2831f9d397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 13/14] fix: hex_to_bytes gives None for text which is not
 hexadecimal

codecs.decode raises binascii.Error, a ValueError, which was not caught.
---
 horusdemodlib/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index f53cd2e..5b30b15 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -360,7 +360,7 @@ def hex_to_bytes(data:str) -> bytes:
     try:
         _binary_string = codecs.decode(data, 'hex')
         return _binary_string
-    except TypeError as e:
+    except (TypeError, ValueError) as e:
         logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
         return None
 
-- 
2.43.0


From 192624c91da14077895cb1b5d636603cc293c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 14/14] fix: end without an error with --noupload

There is no upload thread to wait for when uploads are inhibited.
---
 horusdemodlib/uploader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index df0c6c6..3613929 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -286,7 +286,8 @@ def main():
         logging.info("Caught CTRL-C, exiting.")
 
     sondehub_uploader.close()
-    sondehub_uploader.input_process_thread.join()
+    if not args.noupload:
+        sondehub_uploader.input_process_thread.join()
 
 class HorusUploaderTests(unittest.TestCase):
     class mockArgs():
-- 
2.43.0

