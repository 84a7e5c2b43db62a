From 43032445af2489f8f7ce6a1476d90514b926ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 01/16] fix: do not write a hex byte past the end of the
 BufferedOut buffer

---
 BufferedOut.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..7acf107 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -156,8 +156,11 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
     char digits[] = "0123456789ABCDEF";
-    *(pos++) = digits[(b & 0xF0u) >> 4];
-    *(pos++) = digits[b & 0xFu];
+    if (dataBuf.end() - pos >= 2)
+    {
+        *(pos++) = digits[(b & 0xF0u) >> 4];
+        *(pos++) = digits[b & 0xFu];
+    }
     return *this;
 }
 
-- 
2.43.0


From ab07d2d97c1779ab3a629f269044d5a448aa2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 02/16] fix: keep integer padding inside the BufferedOut buffer
 and never cut off digits

---
 BufferedOut.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 7acf107..efc90fb 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -45,6 +45,10 @@ void BufferedOut::addPadding(const char* p)
     auto realSize = p - pos;
     if (realSize < integerWidth)
     {
+        if (dataBuf.end() - pos < integerWidth)
+        {
+            return; // the padded field doesn't fit
+        }
         memmove(pos + integerWidth - realSize, pos, realSize);
         auto paddingSize = integerWidth - realSize;
         auto paddingPos = pos;
@@ -52,8 +56,12 @@ void BufferedOut::addPadding(const char* p)
         {
             *(paddingPos++) = fillChar;
         }
+        pos += integerWidth;
+    }
+    else
+    {
+        pos += realSize;
     }
-    pos += integerWidth;
 }
 
 BufferedOut &BufferedOut::operator<<(const char* str)
-- 
2.43.0


From d33ccdd4bce2d22268c0876dcec06597b923608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 03/16] fix: a float which doesn't fit must not expose
 unwritten bytes of the BufferedOut buffer

---
 BufferedOut.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index efc90fb..106fbcf 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -10,7 +10,11 @@ char* toChars(char* first, char* last, float val, unsigned int precision) noexce
 {
     int n = int(val);
     auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    if (ec != std::errc {})
+    {
+        return first; // nothing was printed
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From d14026879157c34966156a4a6fdb467fdb2a4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 04/16] fix: BufferedOut::data() must not truncate the size to
 16 bits

---
 BufferedOut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
-- 
2.43.0


From 976d42a71e6229c97eb6d695fde3a8d6c436718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 05/16] fix: don't take records shorter than their own header
 from attached memory

---
 PersistentStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..3ab10f3 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -10,7 +10,7 @@ embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
     else
     {
         while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
-              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size != 0
+              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)
               && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
         {
             free_head_ += getNodeDescriptor(free_head_).size;
-- 
2.43.0


From fbf78df058bdd4b86acb9e01ad1be8434456133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 06/16] fix: reject objects whose record size doesn't fit the
 record header

---
 PersistentStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..dddb361 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -57,6 +57,7 @@ public:
             return true;
         }
         constexpr auto recordSize = sizeof(Node<T>);
+        static_assert(recordSize <= std::numeric_limits<decltype(NodeDescriptor::size)>::max(), "The object is too large");
         if (free_head_ + recordSize > buffer_.size())
         {
             // no more free nodes
-- 
2.43.0


From c9f1cdff9079395ea7d7706d0e94995f4d0da957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 07/16] fix: don't store objects under keys which are too long
 to be found again

---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index dddb361..b3a0521 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -50,6 +50,11 @@ public:
     template<typename T>
     bool set(std::string_view idx, const T &object)
     {
+        if (idx.size() > std::tuple_size<decltype(NodeDescriptor::idx)>::value)
+        {
+            // the key would be cut off, and the object never found again
+            return false;
+        }
         if (const auto pos = getIdx<T>(idx); pos != wrongPos)
         {
             auto &node = getNode<T>(pos);
-- 
2.43.0


From e10a465c8cc14f84d656b8387d9958fb8bbeba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:45 +0000
Subject: [PATCH 08/16] fix: SimpleFrameBuffer geometry, pixel position and
 color mask for depths other than one bit

---
 graphics/SimpleFrameBuffer.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index e56f72c..81b6a64 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -9,8 +9,8 @@ public:
     explicit SimpleFrameBuffer() noexcept
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
-        static_assert(width * (1 << (colorDepth - 1)) % 8 == 0, "Width must be byte-aligned");
-        selectedColor = (1 << colorDepth) - 1;
+        static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
+        selectedColor = colorMask;
     }
     int getWidth() const override { return effectiveWidth; }
     int getHeight() const override { return height; }
@@ -33,7 +33,7 @@ public:
 
     void setColor(uint32_t color) override
     {
-        selectedColor = color & ((1 << colorDepth) - 1);
+        selectedColor = color & colorMask;
     }
 
     void drawPixel(int posX, int posY, uint32_t color)
@@ -55,7 +55,7 @@ public:
         {
             const auto mask = 0xC0 >> (posX % 4) * 2;
             buffer[pixelOffset] &= ~mask;
-            buffer[pixelOffset] |= (color & 3) << (2 - (posX % 4) * 2);
+            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);
         }
         else if constexpr (colorDepth == 4)
         {
@@ -88,7 +88,8 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
-    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8;
+    static constexpr int effectiveWidth = width;
+    static constexpr uint32_t colorMask = 0xFFFFFFFFu >> (32 - bitsPerPixel);
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From c2360399bf98f4e320b0e32399f577ee0167ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 09/16] fix: glyph lookup for the last glyph, codes above 0x7F
 and codes without a glyph

---
 graphics/EmbeddedFont.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..6d4edd6 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -6,12 +6,14 @@ namespace embedded::fonts
 
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
-    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
+    const auto code = static_cast<uint8_t>(symbol);
+    // fonts have no glyphs for the codes between '~' and 0xA0
+    if (code < fontDescriptor.first || code > fontDescriptor.last || (code > '~' && code < 0xA0))
     {
         return getBitmap(fontDescriptor.first);
     }
-    auto pos = symbol - fontDescriptor.first;
-    if (symbol > '~')
+    auto pos = code - fontDescriptor.first;
+    if (code > '~')
     {
         pos -= (0xA0 - '~' - 1);
     }
@@ -23,7 +25,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
-    const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
+    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                            fontDescriptor.bitmap.end() :
                            fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
-- 
2.43.0


From f1d627dc394d06be5f1fc1d79b5a52618c3a3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 10/16] fix: text bounds must cover the whole text

---
 graphics/EmbeddedFont.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 6d4edd6..8964bef 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -41,21 +41,22 @@ Rect<int> EmbeddedFont::getTextBounds(std::string_view view) const
     {
         int maxBottom = -255;
         int minTop = 0;
+        int position = 0;
+        int minLeft = 0;
+        int maxRight = 0;
         for (std::size_t i = 0; i < view.size(); ++i)
         {
             const auto& bitmap = getBitmap(view[i]);
-            if (i == 0)
-            {
-                result.topLeft.x = - bitmap.offset.width;
-                result.size.width = bitmap.effectiveSize.width;
-            }
-            else
-            {
-                result.size.width += (i < view.size() - 1) ? bitmap.width : bitmap.effectiveSize.width;
-            }
+            const int left = position + bitmap.offset.width;
+            const int right = left + bitmap.effectiveSize.width;
+            minLeft = (i == 0) ? left : std::min(minLeft, left);
+            maxRight = (i == 0) ? right : std::max(maxRight, right);
+            position += bitmap.width;
             maxBottom = std::max(maxBottom, (int)bitmap.offset.height + bitmap.effectiveSize.height);
             minTop = std::min(minTop, (int)bitmap.offset.height);
         }
+        result.topLeft.x = - minLeft;
+        result.size.width = maxRight - minLeft;
         result.size.height = maxBottom - minTop;
         result.topLeft.y = - minTop;
     }
-- 
2.43.0


From d6c0610c23772b0688c5841c89aaa62ab958c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:21 +0000
Subject: [PATCH 11/16] fix: glyph lookup must not recurse without end for
 fonts whose first code has no glyph

---
 graphics/EmbeddedFont.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 8964bef..649291c 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -6,21 +6,26 @@ namespace embedded::fonts
 
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
-    const auto code = static_cast<uint8_t>(symbol);
-    // fonts have no glyphs for the codes between '~' and 0xA0
-    if (code < fontDescriptor.first || code > fontDescriptor.last || (code > '~' && code < 0xA0))
-    {
-        return getBitmap(fontDescriptor.first);
-    }
-    auto pos = code - fontDescriptor.first;
-    if (code > '~')
+    const auto &glyphs = fontDescriptor.glyph;
+    if (glyphs.size() == 0)
     {
-        pos -= (0xA0 - '~' - 1);
+        return {};
     }
-
-    if (pos >= fontDescriptor.glyph.size())
+    const auto code = static_cast<uint8_t>(symbol);
+    // codes without a glyph are shown as the first one
+    std::size_t pos = 0;
+    if (code >= fontDescriptor.first && code <= fontDescriptor.last)
     {
-        return getBitmap(fontDescriptor.first);
+        pos = code - fontDescriptor.first;
+        // fonts have no glyphs for the codes between '~' and 0xA0
+        if (fontDescriptor.first <= '~' && code > '~')
+        {
+            pos = code < 0xA0 ? 0 : pos - (0xA0 - '~' - 1);
+        }
+        if (pos >= glyphs.size())
+        {
+            pos = 0;
+        }
     }
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
-- 
2.43.0


From 7bca69d084f7f81c67a81f1288dbd1ccbc398fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 12/16] fix: Arduino UART receive must not run over the buffer,
 make up an end byte or mistake a wrapped clock for a timeout

---
 arduino/PacketUart.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..19b9d96 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -10,10 +10,9 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    auto startTime = millis();
-    auto maxTime = startTime + timeout;
+    const uint32_t startTime = millis();
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (currentPos < bufferSize && static_cast<uint32_t>(millis() - startTime) < timeout)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
@@ -49,8 +48,13 @@ uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
+    while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+    {
+        if (buffer[currentPos++] == endByte)
+        {
+            break;
+        }
+    }
     uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
@@ -61,22 +65,28 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
+    if (bufferSize < 2)
+        return 0;
     uint16_t currentPos = 0;
     auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    const uint32_t startTime = millis();
+    while (timeoutMilliseconds == 0 || static_cast<uint32_t>(millis() - startTime) < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+            {
+                if (buffer[currentPos++] == endByte)
+                {
+                    break;
+                }
+            }
             break;
         }
     }
-- 
2.43.0


From ef92f70efe431f484fd4ee1c047e212a134718c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 13/16] fix: ESP UART receive must not report driver errors as
 data or mistake a wrapped clock for a timeout

---
 esp32-esp-idf/PacketUart.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..e2bfcdc 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,23 +9,25 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    const int received = uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return received > 0 ? received : 0;
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    const int sent = uartDevice.sendBlocking(buffer, bufferSize);
+    return sent > 0 ? sent : 0;
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
     while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -46,26 +48,32 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    bool started = false;
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos] == startByte)
+            {
+                started = true;
                 break;
+            }
         }
         else
         {
             return 0;
         }
     }
+    if (!started)
+        return 0;
     ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From 27f04842500a388d745a5a6a95f3c8db159465a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:29 +0000
Subject: [PATCH 14/16] fix: ESP SPI bus must be given back on release and when
 its device cannot be added

---
 esp32-esp-idf/SpiBus.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..357e10f 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -72,14 +72,19 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) == ESP_OK)
         {
             spiDevice = nullptr;
             return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
-- 
2.43.0


From 046fcb3d44ce7c6558c732551bea17379b41c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:29 +0000
Subject: [PATCH 15/16] fix: ESP ADC unit must be given back after each reading

---
 esp32-esp-idf/AnalogPin.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..7a4e923 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -45,13 +45,12 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
             .atten = ADC_ATTEN_DB_12,
             .bitwidth = ADC_BITWIDTH_12,
         };
-        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)
+        if (adc_oneshot_config_channel(handle, channel, &chanCfg) != ESP_OK
+            || adc_oneshot_read(handle, channel, &result) != ESP_OK)
         {
-            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
-            {
-                return -1;
-            }
+            result = -1;
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From a678330c26bda46d5d138e8bed196d6f867013db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:33 +0000
Subject: [PATCH 16/16] fix: serial output of 64 KiB and more must be sent
 whole

---
 arduino/SerialOut.cpp       | 9 ++++++++-
 esp32-esp-idf/SerialOut.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/arduino/SerialOut.cpp b/arduino/SerialOut.cpp
index 1d434ea..0dd6e70 100644
--- a/arduino/SerialOut.cpp
+++ b/arduino/SerialOut.cpp
@@ -1,9 +1,16 @@
 #include "../SerialOut.h"
 #include "PacketUartImpl.h"
 
+#include <algorithm>
+
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
-    uartDevice.Send(dataView.begin(), dataView.size(), 100);
+    for (size_t pos = 0; pos < dataView.size();)
+    {
+        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.size() - pos, UINT16_MAX));
+        uartDevice.Send(dataView.begin() + pos, count, 100);
+        pos += count;
+    }
     bufferedOut.clear();
 }
diff --git a/esp32-esp-idf/SerialOut.cpp b/esp32-esp-idf/SerialOut.cpp
index 1d434ea..0dd6e70 100644
--- a/esp32-esp-idf/SerialOut.cpp
+++ b/esp32-esp-idf/SerialOut.cpp
@@ -1,9 +1,16 @@
 #include "../SerialOut.h"
 #include "PacketUartImpl.h"
 
+#include <algorithm>
+
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
-    uartDevice.Send(dataView.begin(), dataView.size(), 100);
+    for (size_t pos = 0; pos < dataView.size();)
+    {
+        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.size() - pos, UINT16_MAX));
+        uartDevice.Send(dataView.begin() + pos, count, 100);
+        pos += count;
+    }
     bufferedOut.clear();
 }
-- 
2.43.0

