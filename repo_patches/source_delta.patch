From 7486fde5c2cf7cd6b0f9bb729448ef41f4c13519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 01/34] fix: a configuration starting with a UTF-8 BOM made the
 parser run past the end of the text

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..f69dbdd 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1411,7 +1411,7 @@ namespace FNLog
             }
         }
         ls.first_ = first;
-        ls.end_ = first + text.length();
+        ls.end_ = &text[0] + text.length();
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
-- 
2.43.0


From 633222c6fde8b4818f7258ecff3afb681202a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 02/34] fix: an embedded NUL character in a configuration made
 the parser loop forever

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index f69dbdd..bed1245 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1002,6 +1002,7 @@ namespace FNLog
                 if (ch == '\0')
                 {
                     ls.current_--; //safe; set current referer to '\0'   
+                    ls.end_ = ls.current_; //the text ends at its first '\0'
                     ls.line_no_++; //last line compensate that the line no aways ref valid lex line no.  
                     return PEC_NONE;
                 }
-- 
2.43.0


From b28a7cb5908d5a0fc32ce7d33c37bde7bf3132c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 03/34] fix: a define or var whose value contains its own name
 made the parser loop forever

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index bed1245..5650a60 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -805,6 +805,7 @@ namespace FNLog
             if (bound_ok)
             {
                 memcpy(&text[text_offset], val.c_str(), val.length());
+                text_offset += val.length();
             }
         };
         return 0;
-- 
2.43.0


From 0641d1cd78efd8d9468d697a02d2f68d5f9d6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 04/34] fix: bit list indexes outside 0..63 shifted out of
 range when parsing a configuration

---
 src/include/fn_parse.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 5650a60..481488c 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -697,6 +697,11 @@ namespace FNLog
         return;
     }
 
+    inline unsigned long long BitOfIndex(int index)
+    {
+        return index >= 0 && index < 64 ? (1ULL << index) : 0;
+    }
+
     inline unsigned long long ParseBitArray(const char* begin, const char* end)
     {
         unsigned long long bitmap = 0;
@@ -724,7 +729,7 @@ namespace FNLog
 
             if (offset == end || *offset != '-') //
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= BitOfIndex(bit_offset_first);
                 continue;
             }
 
@@ -735,14 +740,15 @@ namespace FNLog
 
             if (offset == end || !IsNumber(*offset))
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= BitOfIndex(bit_offset_first);
                 continue;
             }
 
             int bit_offset_last = atoi(offset);
-            for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last); i++)
+            const int bit_last = (std::min)((std::max)(bit_offset_first, bit_offset_last), 63);
+            for (int i = (std::max)((std::min)(bit_offset_first, bit_offset_last), 0); i <= bit_last; i++)
             {
-                bitmap |= (1ULL << i);
+                bitmap |= BitOfIndex(i);
             }
         }
         return bitmap;
-- 
2.43.0


From db2daf418b9afdd25dbed946399224a3a93cb40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 05/34] fix: blanks after '=' in a var list were kept in the
 value

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 481488c..4d9be20 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -899,7 +899,7 @@ namespace FNLog
             }
 
             sep++;
-            while (sep < dot &&  IsBlank(line.at(offset)))
+            while (sep < dot &&  IsBlank(line.at(sep)))
             {
                 sep++;
             }
-- 
2.43.0


From 32896b06b7b3e7305f1af863b076c56e39619766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 06/34] fix: the shared memory key was uninitialized when a
 configuration does not set it

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 4d9be20..e1b3837 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1423,6 +1423,7 @@ namespace FNLog
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
+        ls.shm_key_ = 0;
         ls.current_ = ls.first_;
         ls.line_no_ = 1; 
         ls.desc_len_ = 0;
-- 
2.43.0


From 20e240e7af607c263c3e1c2b16639e5a27c5b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 07/34] fix: a channel without virtual device passed its logs
 to the virtual device hook

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index e1b3837..b6ca90f 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1502,6 +1502,7 @@ namespace FNLog
                     Channel& channel = ls.channels_[ls.channel_size_++];
                     memset(&channel, 0, sizeof(channel));
                     channel.channel_id_ = channel_id;
+                    channel.virtual_device_id_ = -1;
                     ret = ParseChannel(ls, channel, ls.line_.blank_);
                     if (ret != 0)
                     {
-- 
2.43.0


From 01d4526cba9f8ba99ec3fa6a3e91df66eddb04c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 08/34] fix: a disabled virtual device still received logs

---
 src/include/fn_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index d361d99..08664eb 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -183,7 +183,7 @@ namespace FNLog
                     if (channel.virtual_device_id_ >= 0)
                     {
                         Device& device = channel.devices_[channel.virtual_device_id_];
-                        if (log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
+                        if (device.config_fields_[DEVICE_CFG_ABLE] && log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
                         {
                             //more block check in the proc 
                             EnterProcOutVirtualDevice(*logger_, log_data_->channel_id_, channel.virtual_device_id_, *log_data_);
-- 
2.43.0


From 8572276be364efb504e0990405b7cf6709a2edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 09/34] fix: small negative floating point numbers lost their
 sign

---
 src/include/fn_fmt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..503e550 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -273,7 +273,7 @@ namespace FNLog
         {
             if (fabst < 0.0001 && fabst > 0.0000001)
             {
-                snprintf(dst, 30, "%.08lf", fabst);
+                snprintf(dst, 30, "%.08lf", number);
             }
             else
             {
-- 
2.43.0


From 6aa90f40e1f236e6c255136a3fd167a4dff4aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 10/34] fix: hex and binary text of zero relied on undefined
 __builtin_clzll(0), padded binary left bytes unwritten

---
 src/include/fn_fmt.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 503e550..2652e4d 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -160,7 +160,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1);
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -225,7 +225,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1);
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
@@ -243,6 +243,10 @@ namespace FNLog
             *(dst + cur_wide - 1) = lut[m2];
             cur_wide--;
         } while (number);
+        while (cur_wide != 0)
+        {
+            *(dst + --cur_wide) = '0';
+        }
         return real_wide;
     }
 
-- 
2.43.0


From d665de073789fb2c61d1f59f9da7529cd2b06023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 11/34] fix: timestamps were written one hour off after a
 daylight saving change on the same day

---
 src/include/fn_fmt.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 2652e4d..71887d4 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -325,17 +325,15 @@ namespace FNLog
         static thread_local tm cache_date = { 0 };
         static thread_local long long cache_timestamp = 0;
         static const char date_fmt[] = "[20190412 13:05:35.417]";
-        long long day_second = timestamp - cache_timestamp;
-        if (day_second < 0 || day_second >= 24*60*60)
+        //the time zone offset never changes within one minute, but it can change within one day.
+        long long minute_second = timestamp - cache_timestamp;
+        if (minute_second < 0 || minute_second >= 60)
         {
             cache_date = FileHandler::time_to_tm((time_t)timestamp);
-            struct tm daytm = cache_date;
-            daytm.tm_hour = 0;
-            daytm.tm_min = 0;
-            daytm.tm_sec = 0;
-            cache_timestamp = mktime(&daytm);
-            day_second = timestamp - cache_timestamp;
+            cache_timestamp = timestamp - cache_date.tm_sec;
+            minute_second = timestamp - cache_timestamp;
         }
+        long long day_second = cache_date.tm_hour * 3600 + cache_date.tm_min * 60 + minute_second;
         int write_bytes = 0;
 
         *(dst + write_bytes++) = '[';
-- 
2.43.0


From 79921e8b79c7d53d9e0b72b0302dde673e61003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 12/34] fix: a priority outside trace..fatal indexed the
 channel statistics out of range

---
 src/include/fn_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..eccfa21 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -276,7 +276,7 @@ namespace FNLog
         (void)logger;
         (void)prefix;
         log.channel_id_ = channel_id;
-        log.priority_ = priority;
+        log.priority_ = FN_MAX((int)PRIORITY_TRACE, FN_MIN(priority, (int)PRIORITY_FATAL));
         log.category_ = category;
         log.identify_ = identify;
         log.code_line_ = 0;
-- 
2.43.0


From 6201818558fcb81f4f278ce0d1f6e86a88d01f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 13/34] fix: a received udp log shorter than the buffer was not
 terminated

---
 src/include/fn_channel.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index eccfa21..b9e7e38 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -249,6 +249,10 @@ namespace FNLog
                     {
                         break;
                     }
+                    if (ring_buffer.udp_buffer_.content_len_ < LogData::LOG_SIZE)
+                    {
+                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0';
+                    }
                     empty_tick = false; 
                     EnterProcDevice(logger, channel.channel_id_, device.device_id_, ring_buffer.udp_buffer_);
                 }
-- 
2.43.0


From 56494b58b8a95c3e9b33504b2056d67e813b5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 14/34] fix: stopping left stale marks in the ring buffer for
 the next run

---
 src/include/fn_core.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..ebc4309 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -153,10 +153,9 @@ namespace FNLog
         {
             RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
 
-            while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
+            for (int i = 0; i < RingBuffer::BUFFER_LEN; i++)
             {
-                ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
-                ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                ring_buffer.buffer_[i].data_mark_ = MARK_INVALID;
             }
             ring_buffer.read_idx_ = 0;
             ring_buffer.proc_idx_ = 0;
-- 
2.43.0


From b82367e6ee103b6b48f3627e577b1e893702cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 15/34] fix: stopping or (re)configuring a logger that was
 never initialized dereferenced a null pointer

---
 src/include/fn_core.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index ebc4309..e750139 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -168,6 +168,11 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
+        if (logger.shm_ == NULL)
+        {
+            printf("StopLogger error. logger not init %p.\n", logger.shm_);
+            return E_LOGGER_NOT_INIT;
+        }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
             printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
@@ -262,7 +267,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -276,7 +281,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -290,7 +295,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -308,7 +313,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -326,7 +331,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -344,6 +349,10 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
@@ -353,6 +362,10 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
-- 
2.43.0


From 55578942b0b08b675a2840e442b3fc30650214ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 16/34] fix: batch configuration calls did not check the field
 index

---
 src/include/fn_core.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index e750139..db8675b 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -353,6 +353,10 @@ namespace FNLog
         {
             return;
         }
+        if (cce >= CHANNEL_CFG_MAX_ID)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
@@ -366,6 +370,10 @@ namespace FNLog
         {
             return;
         }
+        if (dce >= DEVICE_CFG_MAX_ID)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
-- 
2.43.0


From fa738fd05071cffc447f8d83c6015d0d4fed9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 17/34] fix: stopping a logger while its channel thread hot
 updates could deadlock

---
 src/include/fn_load.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..3a078ac 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -323,7 +323,12 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
+        //never wait: StopLogger joins this thread while it owns the lock.
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        if (!state_guard.owns_lock())
+        {
+            return E_LOGGER_IN_USE;
+        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
-- 
2.43.0


From 0f24dfea31b7bdc298950753d5b6fe794bbb3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 18/34] fix: crash recovery marked complete records behind an
 unfinished one as damaged

---
 src/include/fn_load.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 3a078ac..d3bb962 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -106,6 +106,12 @@ namespace FNLog
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
                 auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_];
+                if (log.data_mark_ == MARK_READY)
+                {
+                    // complete record waiting behind an unfinished one
+                    shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                    continue;
+                }
                 log.data_mark_ = 2;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
-- 
2.43.0


From 3c8d95c1ead3effbe863219c92829ca8c93478f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 19/34] fix: a stalled producer of a synchronous channel could
 move ring indices after a full lap

---
 src/include/fn_channel.h | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index b9e7e38..255a872 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -106,19 +106,25 @@ namespace FNLog
             bool empty_tick = true;
             do
             {
-                int old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
-                int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
-                if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
+                int old_idx = 0;
+                int next_idx = 0;
                 {
-                    //empty branch    
-                    break;
-                }
+                    //sync: the check and the move of the index are one step, a stale check could be followed by a full lap.
+                    Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
+                    old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
+                    next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                    if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
+                    {
+                        //empty branch    
+                        break;
+                    }
 
-                //set proc index  
-                if (!ring_buffer.proc_idx_.compare_exchange_strong(old_idx, next_idx))
-                {
-                    //only one thread get log. this branch will not hit.   
-                    break;
+                    //set proc index  
+                    if (!ring_buffer.proc_idx_.compare_exchange_strong(old_idx, next_idx))
+                    {
+                        //only one thread get log. this branch will not hit.   
+                        break;
+                    }
                 }
                 auto& cur_log = ring_buffer.buffer_[old_idx];
                 DispatchLog(logger, channel, cur_log);
@@ -154,6 +160,8 @@ namespace FNLog
                 }
                 do
                 {
+                    //sync: the check and the move of the index are one step, a stale check could be followed by a full lap.
+                    Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                     //set read index to proc index  
                     old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
                     next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
-- 
2.43.0


From 844554d34dc610e640755ec50722a67396035c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:22 +0000
Subject: [PATCH 20/34] fix: overlong file and function names in the line
 prefix overran the record

---
 src/include/fn_stream.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index 08664eb..c159147 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -140,36 +140,37 @@ namespace FNLog
                 write_buffer_unsafe(logger.desc_, logger.desc_len_);
                 write_char_unsafe(']');
             }
+            //the names come from the caller, they can be longer than the record.
             if (prefix & LOG_PREFIX_FILE)
             {
-                write_char_unsafe('[');
+                write_buffer("[", 1);
                 if (file_name && file_name_len > 0)
                 {
                     int jump_bytes = short_path(file_name, file_name_len);
-                    write_buffer_unsafe(file_name + jump_bytes, file_name_len - jump_bytes);
+                    write_buffer(file_name + jump_bytes, file_name_len - jump_bytes);
                 }
                 else
                 {
-                    write_buffer_unsafe("nofile", 6);
+                    write_buffer("nofile", 6);
                 }
-                write_char_unsafe(':');
+                write_buffer(":", 1);
                 *this << (unsigned long long)line;
-                write_char_unsafe(']');
+                write_buffer("]", 1);
             }
             if (prefix & LOG_PREFIX_FUNCTION)
             {
-                write_char_unsafe('(');
+                write_buffer("(", 1);
                 if (func_name && func_name_len > 0)
                 {
-                    write_buffer_unsafe(func_name, func_name_len);
+                    write_buffer(func_name, func_name_len);
                 }
                 else
                 {
-                    write_buffer_unsafe("null", 4);
+                    write_buffer("null", 4);
                 }
-                write_char_unsafe(')');
+                write_buffer(")", 1);
             }
-            write_char_unsafe(' ');
+            write_buffer(" ", 1);
             log_data_->prefix_len_ = log_data_->content_len_;
         }
         
-- 
2.43.0


From 50646248b1c53f6c0a37c151657aa8c9e5178c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:18 +0000
Subject: [PATCH 21/34] fix: hot update with a file that lacks the channel (for
 example an empty file) cleared the running configuration

---
 src/include/fn_load.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index d3bb962..388a441 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -327,6 +327,10 @@ namespace FNLog
         {
             return ret;
         }
+        if (ls->channel_size_ <= channel_id)
+        {
+            return E_INVALID_CHANNEL_SIZE;
+        }
 
 
         //never wait: StopLogger joins this thread while it owns the lock.
-- 
2.43.0


From 57482b56d2acd5f081e74d24b740c0db72907789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 22/34] fix: the documented channel option 'sync: SYNC'
 selected an asynchronous channel

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index b6ca90f..fb94e6f 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -540,7 +540,7 @@ namespace FNLog
     }
     inline ChannelType ParseChannelType(const char* begin, const char* end)
     {
-        if (end <= begin || *begin != 's')
+        if (end <= begin || (*begin != 's' && *begin != 'S'))
         {
             return CHANNEL_ASYNC;
         }
-- 
2.43.0


From 307ec5da7682142644ef66478652b1258e78bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 23/34] fix: channel identify filters above 32 bits were cut
 off

---
 src/include/fn_parse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index fb94e6f..e5e2481 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1350,10 +1350,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
-- 
2.43.0


From b622441c620efe7627f502a65f2f4062d937ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 24/34] fix: category and identify masks above 2^63-1 lost
 their highest bit

---
 src/include/fn_parse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index e5e2481..aaa77b4 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1205,10 +1205,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 device.config_fields_[DEVICE_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1223,10 +1223,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_LIMIT_SIZE:
                 device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
@@ -1344,10 +1344,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1362,10 +1362,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
 
             case RK_DEVICE:
-- 
2.43.0


From 9b9e514afb59f0f5818feae0b7fa45ea439341b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 25/34] fix: the documented device option 'out_type: null' was
 an error

---
 src/include/fn_parse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index aaa77b4..3999c0b 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1178,7 +1178,8 @@ namespace FNLog
                 break;
             case RK_OUT_TYPE:
                 device.out_type_ = ParseOutType(ls.line_.val_begin_, ls.line_.val_end_);
-                if (device.out_type_ == DEVICE_OUT_NULL)
+                if (device.out_type_ == DEVICE_OUT_NULL
+                    && (ls.line_.val_end_ <= ls.line_.val_begin_ || (*ls.line_.val_begin_ != 'n' && *ls.line_.val_begin_ != 'N')))
                 {
                     //logic error:
                     ls.current_ = current;
-- 
2.43.0


From ef4c577e89a2008485d6203808e3a00c3111023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 26/34] fix: placeholders inside the program name were replaced
 again, or for ever

---
 src/include/fn_out_file_device.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..f202d1d 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -88,7 +88,9 @@ namespace FNLog
             case 'P':
                 if (name.substr(pos + 2, 4) == "NAME")
                 {
-                    name.replace(pos, 6, FileHandler::process_name());
+                    std::string process_name = FileHandler::process_name();
+                    name.replace(pos, 6, process_name);
+                    pos += process_name.length();
                     break;
                 }
                 if (name.substr(pos + 2, 2) == "ID")
-- 
2.43.0


From 70f1d020e7ffbf5d559f5769f45c0514a2d13105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:15 +0000
Subject: [PATCH 27/34] fix: daily files started an hour early or late on days
 when the clock changes

---
 src/include/fn_data.h            | 1 +
 src/include/fn_out_file_device.h | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index bc76703..f96ca76 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -188,6 +188,7 @@ namespace FNLog
         DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP,  
         DEVICE_LOG_CUR_FILE_CREATE_DAY,
         DEVICE_LOG_CUR_FILE_CREATE_HOUR,
+        DEVICE_LOG_CUR_FILE_NEXT_DAY,
         DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP,
         DEVICE_LOG_LAST_TRY_CREATE_ERROR,
         DEVICE_LOG_LAST_TRY_CREATE_CNT,
diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index f202d1d..4b87eee 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -215,7 +215,7 @@ namespace FNLog
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY))
             {
                 if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 24 * 3600)
+                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_NEXT_DAY))
                 {
                     close_file = true;
                 }
@@ -252,6 +252,7 @@ namespace FNLog
 
         long long create_day = 0;
         long long create_hour = 0;
+        long long next_day = 0; //a day has 23 or 25 hours when the clock changes
         tm t = FileHandler::time_to_tm(log.timestamp_);
         if (true) //process day time   
         {
@@ -260,7 +261,12 @@ namespace FNLog
             day.tm_sec = 0;
             create_hour = mktime(&day);
             day.tm_hour = 0;
+            day.tm_isdst = -1;
             create_day = mktime(&day);
+            day.tm_mday++;
+            day.tm_hour = 0;
+            day.tm_isdst = -1;
+            next_day = mktime(&day);
         }
 
         std::string name = MakeFileName(device.out_file_, channel.channel_id_, device.device_id_, t);
@@ -313,6 +319,7 @@ namespace FNLog
         AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP, log.timestamp_);
         AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY, create_day);
         AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR, create_hour);
+        AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_NEXT_DAY, next_day);
         AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_SIZE, writed_byte);
     }
 
-- 
2.43.0


From 63740a5af81c212dc4122131db541f85c85966b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:40 +0000
Subject: [PATCH 28/34] fix: a configuration without channels destroyed the
 previous one instead of failing without effect

---
 src/include/fn_load.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 388a441..da37d4e 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -208,6 +208,11 @@ namespace FNLog
             return E_LOGGER_IN_USE;
         }
 
+        if (ls->channel_size_ > Logger::MAX_CHANNEL_SIZE || ls->channel_size_ <= 0)
+        {
+            printf("InitFromYMAL channel size:%d out channel max%d. \n", ls->channel_size_, Logger::MAX_CHANNEL_SIZE);
+            return E_INVALID_CHANNEL_SIZE;
+        }
 
         if (ls->name_len_ > 0)
         {
@@ -242,11 +247,6 @@ namespace FNLog
         }
         memcpy(&logger.shm_->channels_, &ls->channels_, sizeof(logger.shm_->channels_));
 
-        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
-        {
-            printf("InitFromYMAL channel size:%d out channel max%d. \n", logger.shm_->channel_size_, Logger::MAX_CHANNEL_SIZE);
-            return E_INVALID_CHANNEL_SIZE;
-        }
         return 0;
     }
 
-- 
2.43.0


From d9467d89a863c424bdf403eab792f5a102bd3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:40 +0000
Subject: [PATCH 29/34] fix: initialising again with another shm_key released
 the memory in use the wrong way

---
 src/include/fn_load.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index da37d4e..0798ca4 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -214,6 +214,17 @@ namespace FNLog
             return E_INVALID_CHANNEL_SIZE;
         }
 
+        if (logger.shm_ == NULL)
+        {
+            //the key belongs to the memory in use.
+            logger.shm_key_ = ls->shm_key_;
+            ret = LoadSharedMemory(logger);
+            if (ret != 0 || logger.shm_ == NULL)
+            {
+                printf("InitFromYMAL has error:%d,  yaml:%s\n", ret, text.c_str());
+                return ret;
+            }
+        }
         if (ls->name_len_ > 0)
         {
             memcpy(logger.name_, ls->name_, ls->name_len_+1);
@@ -226,16 +237,6 @@ namespace FNLog
         }
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
-        logger.shm_key_ = ls->shm_key_;
-        if (logger.shm_ == NULL)
-        {
-            ret = LoadSharedMemory(logger);
-            if (ret != 0 || logger.shm_ == NULL)
-            {
-                printf("InitFromYMAL has error:%d,  yaml:%s\n", ret, text.c_str());
-                return ret;
-            }
-        }
         logger.shm_->channel_size_ = ls->channel_size_;
         for (int i = 0; i < ls->channel_size_; i++)
         {
-- 
2.43.0


From 1c2cb9dba96a8b7289c51e7222bc8d7fe289ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:40 +0000
Subject: [PATCH 30/34] fix: pushing or hot updating on a logger that was never
 initialized dereferenced a null pointer

---
 src/include/fn_channel.h | 2 +-
 src/include/fn_load.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 255a872..7c49681 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -488,7 +488,7 @@ namespace FNLog
 
     inline int PushChannel(Logger& logger, int channel_id, int hold_idx)
     {
-        if (channel_id >= logger.shm_->channel_size_ || channel_id < 0)
+        if (logger.shm_ == NULL || channel_id >= logger.shm_->channel_size_ || channel_id < 0)
         {
             return E_INVALID_CHANNEL_SIZE;
         }
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 0798ca4..5aac293 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -283,7 +283,7 @@ namespace FNLog
 
     inline int HotUpdateLogger(Logger& logger, int channel_id)
     {
-        if (logger.shm_->channel_size_ <= channel_id)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return E_INVALID_CHANNEL_SIZE;
         }
-- 
2.43.0


From f7528b9e52ffec0d15960889256ab9614d5b6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:55 +0000
Subject: [PATCH 31/34] fix: udp devices lost the records of the first seconds
 after a restart

---
 src/include/fn_core.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index db8675b..09c00a6 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -207,6 +207,7 @@ namespace FNLog
             {
                 writer.close();
             }
+            writer.open_ts_ = 0; //no retry delay after a restart
         }
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         return 0;
-- 
2.43.0


From adb0af80c5e17ae7b0d649999bcb0ac87905928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:29 +0000
Subject: [PATCH 32/34] fix: negative field numbers passed the range checks of
 the get and set calls

---
 src/include/fn_core.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 09c00a6..fe877cd 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -273,7 +273,7 @@ namespace FNLog
             return 0;
         }
         Channel& channel = logger.shm_->channels_[channel_id];
-        if (field >= CHANNEL_LOG_MAX_ID)
+        if ((unsigned int)field >= CHANNEL_LOG_MAX_ID)
         {
             return 0;
         }
@@ -287,7 +287,7 @@ namespace FNLog
             return;
         }
         Channel& channel = logger.shm_->channels_[channel_id];
-        if (field >= CHANNEL_CFG_MAX_ID)
+        if ((unsigned int)field >= CHANNEL_CFG_MAX_ID)
         {
             return;
         }
@@ -301,7 +301,7 @@ namespace FNLog
             return 0;
         }
         Channel& channel = logger.shm_->channels_[channel_id];
-        if (field >= DEVICE_LOG_MAX_ID)
+        if ((unsigned int)field >= DEVICE_LOG_MAX_ID)
         {
             return 0;
         }
@@ -318,7 +318,7 @@ namespace FNLog
         {
             return;
         }
-        if (field >= DEVICE_CFG_MAX_ID)
+        if ((unsigned int)field >= DEVICE_CFG_MAX_ID)
         {
             return;
         }
@@ -336,7 +336,7 @@ namespace FNLog
         {
             return 0;
         }
-        if (field >= DEVICE_CFG_MAX_ID)
+        if ((unsigned int)field >= DEVICE_CFG_MAX_ID)
         {
             return 0;
         }
@@ -354,7 +354,7 @@ namespace FNLog
         {
             return;
         }
-        if (cce >= CHANNEL_CFG_MAX_ID)
+        if ((unsigned int)cce >= CHANNEL_CFG_MAX_ID)
         {
             return;
         }
@@ -371,7 +371,7 @@ namespace FNLog
         {
             return;
         }
-        if (dce >= DEVICE_CFG_MAX_ID)
+        if ((unsigned int)dce >= DEVICE_CFG_MAX_ID)
         {
             return;
         }
-- 
2.43.0


From 6235d6d7acc4f3c64020707a4ee57b474a15b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:41 +0000
Subject: [PATCH 33/34] fix: records a file device could not write were not
 counted as lost

---
 src/include/fn_file.h            | 6 ++++--
 src/include/fn_out_file_device.h | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..6d44df3 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -99,7 +99,7 @@ namespace FNLog
         inline bool is_open();
         inline long open(const char* path, const char* mod, struct stat& file_stat);
         inline void close();
-        inline void write(const char* data, size_t len);
+        inline bool write(const char* data, size_t len);
         inline void flush();
 
         inline std::string read_line();
@@ -176,15 +176,17 @@ namespace FNLog
         return file_ != nullptr;
     }
 
-    void FileHandler::write(const char* data, size_t len)
+    bool FileHandler::write(const char* data, size_t len)
     {
         if (file_ && len > 0)
         {
             if (fwrite(data, 1, len, file_) != len)
             {
                 close();
+                return false;
             }
         }
+        return file_ != nullptr;
     }
     void FileHandler::flush()
     {
diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 4b87eee..1ae03cd 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -333,14 +333,19 @@ namespace FNLog
 
         if (!writer.is_open() && AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP) + 5 > log.timestamp_)
         {
+            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
             return;
         }
         OpenFileDevice(logger, channel, device, writer, log);
         if (!writer.is_open())
         {
+            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
             return;
         }
-        writer.write(log.content_, log.content_len_);
+        if (!writer.write(log.content_, log.content_len_))
+        {
+            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
+        }
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_CUR_FILE_SIZE, log.content_len_);
-- 
2.43.0


From 8d75a3859aa128622580563d90d142ef51a62716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:59 +0000
Subject: [PATCH 34/34] fix: a record was still read for the statistics after
 its slot was released

---
 src/include/fn_channel.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 7c49681..fffe907 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -128,9 +128,12 @@ namespace FNLog
                 }
                 auto& cur_log = ring_buffer.buffer_[old_idx];
                 DispatchLog(logger, channel, cur_log);
+                //the slot may be reused as soon as its mark is cleared.
+                const int content_len = cur_log.content_len_;
+                const long long timestamp = cur_log.timestamp_;
                 cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
-                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
+                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, content_len);
                 flush_count ++;
                 empty_tick = false;
                 int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
@@ -149,10 +152,10 @@ namespace FNLog
                     AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE, proc_que_size);
                 }
 
-                if (cur_log.timestamp_ > 0)
+                if (timestamp > 0)
                 {
                     long long now = (long long)time(NULL);
-                    long long diff = now - 1 - cur_log.timestamp_;
+                    long long diff = now - 1 - timestamp;
                     if (diff > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S) )
                     {
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
-- 
2.43.0

