From da2956a083e699351211a2621e8fa93be663bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 01/44] fix: reject a value whose declared length wraps around
 32 bits

len + 5 overflowed for lengths close to 2^32, so the derived deserializer was
told that the buffer had gigabytes of content.
---
 Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Value.cpp b/Value.cpp
index 5e57d5c..c1b811b 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -24,7 +24,7 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
         le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
     
     // checking length
-    if (len + 5 > length) return 0;
+    if (len > length - 5) return 0;
 
     // calling the derived deserializer
     return DeserializeInternal(data + 5, len) + 5;
-- 
2.43.0


From 77528289ec5ca5c62195fd84f76350a375cea7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 02/44] fix: report a failure when the content of a value can't
 be deserialized

A failed DeserializeInternal() was reported as 5 used bytes, i. e. success.
---
 Value.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Value.cpp b/Value.cpp
index c1b811b..aed3e11 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -2,6 +2,7 @@
 #include <cstring>
 
 #include "Value.hpp"
+#include "ValueType.hpp"
 
 std::string DowowNetwork::Value::ToStringInternal(uint16_t indent) const {
     return
@@ -27,7 +28,11 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
     if (len > length - 5) return 0;
 
     // calling the derived deserializer
-    return DeserializeInternal(data + 5, len) + 5;
+    uint32_t used = DeserializeInternal(data + 5, len);
+    // 0 means failure, except for the raw values, which may be empty
+    if (used == 0 && GetType() != ValueTypeUndefined) return 0;
+
+    return used + 5;
 }
 
 const char* DowowNetwork::Value::Serialize() const {
-- 
2.43.0


From ea6fe59b7f75b9329d7ebd64ecede6bf9d320a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 03/44] fix: check the length of a serialized array before
 using it

The count was read from contents shorter than 4 bytes, the type of an element
was read one byte behind the contents, and the count sent by the peer was
reserved without comparing it to the amount of data.
---
 values/ValueArr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4c456b2..467aa42 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,9 +11,15 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // check length
+    if (length < 4) return 0;
+
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
+    // each element takes at least 5 bytes
+    if (elements_amount > (length - 4) / 5) return 0;
+
     // reserve space
     array.reserve(elements_amount);
 
@@ -22,7 +28,7 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-        if (read_offset > length) {
+        if (read_offset >= length) {
             Clear();
             return 0;
         }
-- 
2.43.0


From 81c604cfe6ce47899c76f318790d364605ff6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 04/44] fix: don't keep the length of a string that failed to
 deserialize

DeleteBuffer() reset the length only if there was a buffer, so after a failure
the string had a length without data. str_length + 4 could overflow as well.
---
 values/ValueStr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index adb9631..acfd362 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -7,8 +7,8 @@ void DowowNetwork::ValueStr::DeleteBuffer() {
     if (str_data) {
         delete[] str_data;
         str_data = 0;
-        str_length = 0;
     }
+    str_length = 0;
 }
 
 DowowNetwork::ValueStr::ValueStr(std::string str) : Value(ValueTypeStr) {
@@ -30,7 +30,7 @@ uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t
     str_length = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
     // check if wrong length
-    if (length != str_length + 4) {
+    if (str_length != length - 4) {
         DeleteBuffer();
         return 0;
     }
-- 
2.43.0


From 9762e52b33e29075c4c2c5c7b95d4620f704db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 05/44] fix: copy the length of raw values and release their
 old data

CopyFrom() allocated the length of the original but copied its own old length
(reading out of bounds or losing the data), and deserializing twice leaked.
---
 values/ValueUndefined.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e5040b8..61983a7 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -8,6 +8,11 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
 }
 
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
+    // delete the old data
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = 0;
+
     // no data at all
     if (length == 0) return 0;
 
@@ -22,7 +27,8 @@ uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uin
 
 const char* DowowNetwork::ValueUndefined::SerializeInternal() const{
     char* copy = new char[GetSizeInternal()];
-    memcpy(copy, undefined_data, GetSizeInternal());
+    if (undefined_data_length)
+        memcpy(copy, undefined_data, GetSizeInternal());
     return copy;
 }
 
@@ -35,10 +41,13 @@ std::string DowowNetwork::ValueUndefined::ToStringInternal(uint16_t indent) cons
 }
 
 void DowowNetwork::ValueUndefined::CopyFrom(Value* original) {
-    if (undefined_data) free(undefined_data);
-    undefined_data =
-        malloc(static_cast<ValueUndefined*>(original)->undefined_data_length);
-    memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
+    if (original == this) return;
+
+    ValueUndefined* original_undefined = static_cast<ValueUndefined*>(original);
+    DeserializeInternal(
+        reinterpret_cast<const char*>(original_undefined->undefined_data),
+        original_undefined->undefined_data_length
+    );
 }
 
 DowowNetwork::ValueUndefined::~ValueUndefined() {
-- 
2.43.0


From d13f1e5e837d3c4d6bb41e37965b4ae109dd95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 06/44] fix: allow the elements of an array (and the array
 itself) as arguments

Set() deleted the old element before copying the new value from it, CopyFrom()
cleared the array before copying from itself or its element.
---
 values/ValueArr.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 467aa42..79ee965 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -107,11 +107,12 @@ bool DowowNetwork::ValueArr::Set(uint32_t index, Value* val) {
     if (index < 0 || index >= array.size()) return false;
     if (!val) return false;
 
-    delete array[index];
+    // create a copy before deleting the old value: val may be a part of it
+    Value* copy = CreateValue(val->GetType());
+    copy->CopyFrom(val);
 
-    // create a copy
-    array[index] = CreateValue(val->GetType());
-    array[index]->CopyFrom(val);
+    delete array[index];
+    array[index] = copy;
 
     return true;
 }
@@ -145,9 +146,12 @@ void DowowNetwork::ValueArr::Clear() {
 void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     ValueArr* original = static_cast<ValueArr*>(original_);
 
-    New(original->array.size());
-    for (size_t i = 0; i < array.size(); i++)
-        Set(i, original->Get(i));
+    if (original == this) return;
+
+    // copy before clearing: the original may be a part of this array
+    ValueArr copy;
+    for (Value* i : original->array) copy.Push(i);
+    array.swap(copy.array);
 }
 
 DowowNetwork::ValueArr::~ValueArr() {
-- 
2.43.0


From cc094803b2be847b1e29c11a00990958e6dba85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 07/44] fix: check that the datum is long enough for its header
 and name

A too small total length made the value be read behind the buffer, with a
length that wrapped around.
---
 Datum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db5abb7..7200746 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -66,8 +66,8 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     // get the name length
     uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
 
-    // check if name length is greater than total_length
-    if (name_length > total_length) return 0;
+    // check if the header, the name and the type of value fit
+    if (total_length < 6 + 1 + uint32_t(name_length)) return 0;
 
     // create a Value of valid type with correct Deserialize() override
     Value* new_value = CreateValue(data[6 + name_length]);
-- 
2.43.0


From d8d336872f126812bfbcec5f6de671113c383e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 08/44] fix: setting the value of a datum to its own value or a
 part of it

The old value was deleted before the new one was copied from it.
---
 Datum.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index 7200746..bd61c3b 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -32,8 +32,9 @@ DowowNetwork::Value* DowowNetwork::Datum::GetValue() {
 }
 
 void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
-    // delete the old value
-    delete this->value;
+    // deleted last: the new value may be copied from it or be a part of it
+    Value* old_value = this->value;
+    if (value == old_value) return;
 
     // set the new value
     if (value) {
@@ -49,6 +50,9 @@ void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
     else {
         this->value = new ValueUndefined();
     }
+
+    // delete the old value
+    delete old_value;
 }
 
 uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
-- 
2.43.0


From 8af03752df064d1e92a5ced6c8a3f1ea2b19655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 09/44] fix: make Datum::GetValid() check the name as
 documented

---
 Datum.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index bd61c3b..371e73d 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -11,8 +11,19 @@ DowowNetwork::Datum::Datum() {
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
-    //    2. its name isn't empty
-    return !name.empty() && value;
+    //    2. its name has 1 to 32 characters
+    //    3. its name consists of ASCII letters, digits, underscores and hyphens
+    if (!value || name.empty() || name.size() > 32) return false;
+
+    for (char c : name) {
+        if (
+            !(c >= 'a' && c <= 'z') &&
+            !(c >= 'A' && c <= 'Z') &&
+            !(c >= '0' && c <= '9') &&
+            c != '_' && c != '-'
+        ) return false;
+    }
+    return true;
 }
 
 std::string DowowNetwork::Datum::GetName() const {
-- 
2.43.0


From 27c4227ce3f612677aeac7c1669a9c3a3e38403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 10/44] fix: keep the deserialization of a request within its
 declared length

The name could reach behind the buffer, and the datums were read up to the end
of the buffer instead of the end of the request.
---
 Request.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index dcc27ec..d27ad45 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -99,11 +99,11 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
     // BO
     des_total_length = le32toh(des_total_length);
     des_id = le32toh(des_id);
-    des_name_length = le32toh(des_name_length);
+    des_name_length = le16toh(des_name_length);
 
     // check if everything is valid
     if (des_total_length > data_size) return 0;
-    if (des_name_length > data_size) return 0;
+    if (des_total_length < 10 + uint32_t(des_name_length)) return 0;
 
     // delete old datums
     for (auto i : arguments) delete i;
@@ -115,9 +115,9 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // deserialize datums
     uint32_t i = 10 + des_name_length;
-    while (i < data_size) {
+    while (i < des_total_length) {
         Datum* new_datum = new Datum();
-        uint32_t temp_res = new_datum->Deserialize(data + i, data_size - i);
+        uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
         if (!temp_res) {
             delete new_datum;
             break;
-- 
2.43.0


From 47245096a781657b1470dadae24b5f49646d1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 11/44] fix: delete the argument when a null value is set, as
 documented

---
 Request.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index d27ad45..bd98d9b 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -34,8 +34,14 @@ void DowowNetwork::Request::Set(std::string name, Value* value, bool to_copy) {
                 arguments.end(),
                 [&name](Datum* dat) { return dat->GetName() == name; }
             );
-        (*temp_iter)->SetValue(value, to_copy);
-    } else {
+        if (value) {
+            (*temp_iter)->SetValue(value, to_copy);
+        } else {
+            // delete the argument
+            delete *temp_iter;
+            arguments.erase(temp_iter);
+        }
+    } else if (value) {
         // not set yet
         Datum* new_dat = new Datum();
         new_dat->SetName(name);
-- 
2.43.0


From 50e9afeeedc82374baae351e6e92edfeebdab40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 12/44] fix: make Request::CopyFrom() replace the old arguments

The arguments of the target that the original doesn't have survived.
---
 Request.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Request.cpp b/Request.cpp
index bd98d9b..1a6f564 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -142,9 +142,14 @@ uint32_t DowowNetwork::Request::GetSize() const {
 }
 
 void DowowNetwork::Request::CopyFrom(const Request* original) {
+    if (original == this) return;
+
     SetName(original->GetName());
     SetId(original->GetId());
     const auto& original_args = original->GetArguments();
+    // delete old arguments
+    for (auto i : arguments) delete i;
+    arguments.clear();
     // copy the arguments
     for (const auto& d: original_args) {
         Set(d->GetName(), d->GetValue());
-- 
2.43.0


From 4da918a7508482b773248eb4f53973f76d0a9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 13/44] fix: don't make a shallow copy of the value in
 Request::Emplace()

The values have no copy constructors: a string or array passed as a variable
was freed twice.
---
 Request.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Request.hpp b/Request.hpp
index 9a0a394..b21664f 100644
--- a/Request.hpp
+++ b/Request.hpp
@@ -108,8 +108,8 @@ namespace DowowNetwork {
                 Always specify the value type explicitly or you'll
                 likely get a compilation error!
         */
-        template<class T> void Emplace(std::string name, T value) {
-            Set(name, &value, true);
+        template<class T> void Emplace(std::string name, const T& value) {
+            Set(name, const_cast<T*>(&value), true);
         }
 
         /// Get the Request argument automatically casted to T.
-- 
2.43.0


From f59afb3e4274c8aa411666b7b9a54a7a8d933095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 14/44] fix: continue a partially received request length where
 it stopped

---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index c8afcdc..403e57f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -241,7 +241,7 @@ bool DowowNetwork::Connection::Receive() {
         // (effectively interchangable definitions)
         int recv_res = recv(
             socket_fd,
-            &recv_buffer_length,
+            reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
             0);
 
-- 
2.43.0


From b504ed9085edaf4531504db5cb25db6c454b09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 15/44] fix: close the connection if the request is shorter
 than its header

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 403e57f..96607d7 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -258,6 +258,12 @@ bool DowowNetwork::Connection::Receive() {
                 // get the buffer length
                 recv_buffer_length = le32toh(recv_buffer_length);
 
+                // check if too small to have a header
+                if (recv_buffer_length < 10) {
+                    // the connection is broken
+                    return false;
+                }
+
                 // check if too big
                 if (recv_buffer_length > recv_buffer_max_length) {
                     // the connection is broken
-- 
2.43.0


From 360df4ccca701bc593a18caf7d42bd28c3b3c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 16/44] fix: use the receive event only under its mutex, close
 it only in Pull()

---
 Connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 96607d7..3ab4414 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -136,10 +136,12 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->is_disconnecting = true;
 
     // notify the Pull() callers that the receive is finished
+    // (the event is closed by Pull() itself)
+    c->mutex_rq.lock();
     if (c->receive_event != -1) {
         Utils::WriteEventFd(c->receive_event, 1);
-        close(c->receive_event);
     }
+    c->mutex_rq.unlock();
 
     // lock the reference counter
     c->mutex_ra.lock();
@@ -324,12 +326,12 @@ bool DowowNetwork::Connection::Receive() {
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
-                            mutex_rq.unlock();
 
                             // queue updated, notify outer code
                             if (receive_event != -1) {
                                 Utils::WriteEventFd(receive_event, 1);
                             }
+                            mutex_rq.unlock();
                         }
                     }
                 }
-- 
2.43.0


From 54693ba094ca3b71956e8d3bf8954054c2962a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 17/44] fix: don't wait in Pull() when the connection is
 already over

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 3ab4414..85e2be1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -621,6 +621,12 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
         return 0;
     }
 
+    // not receiving anymore, nothing to wait for
+    if (is_disconnecting || !IsConnected()) {
+        mutex_rq.unlock();
+        return 0;
+    }
+
     // someone is already waiting for Pull, quit
     if (receive_event != -1) {
         mutex_rq.unlock();
-- 
2.43.0


From e3189c72df1f091a4fd382bd6ab43511f92b944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 18/44] fix: wait for exactly the requested amount of seconds

The amount of milliseconds overflowed, a signal ended the wait.
---
 Utils.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 76819a1..b309857 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -4,22 +4,44 @@
 #include <sys/poll.h>
 #include <sys/timerfd.h>
 #include <time.h>
+#include <errno.h>
 
 // zero timespan
 const timespec zero_time { 0, 0 };
 
-bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
-    pollfd pollfds { fd, POLLOUT, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+// wait for the events, negative amount of seconds is for infinite
+static bool Select(int fd, short events, int seconds) {
+    timespec now;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    const timespec end { now.tv_sec + seconds, now.tv_nsec };
+
+    while (true) {
+        // the time left (no overflow: time_t is 64-bit)
+        timespec left { end.tv_sec - now.tv_sec, end.tv_nsec - now.tv_nsec };
+        if (left.tv_nsec < 0) {
+            left.tv_sec--;
+            left.tv_nsec += 1000000000;
+        }
+        if (left.tv_sec < 0)
+            left = zero_time;
+
+        pollfd pollfds { fd, events, 0 };
+        int res = ppoll(&pollfds, 1, seconds < 0 ? 0 : &left, 0);
 
-    return pollfds.revents & POLLOUT;
+        // continue only if interrupted by a signal
+        if (res != -1 || errno != EINTR)
+            return pollfds.revents & events;
+
+        clock_gettime(CLOCK_MONOTONIC, &now);
+    }
 }
 
-bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
-    pollfd pollfds { fd, POLLIN, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
+    return Select(fd, POLLOUT, seconds);
+}
 
-    return pollfds.revents & POLLIN;
+bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
+    return Select(fd, POLLIN, seconds);
 }
 
 void DowowNetwork::Utils::WriteEventFd(int fd, uint64_t num) {
-- 
2.43.0


From 3d424aaf4ea0b0e370ebbf3d130f8847152dab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 19/44] fix: the timeout of Pull() is in seconds

---
 Connection.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 85e2be1..64ce32c 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -636,14 +636,11 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // set up receive event
     receive_event = eventfd(0, 0);
 
-    // set up pollfds
-    pollfd pollfds { receive_event, POLLIN, 0 };
-
     // unlock
     mutex_rq.unlock();
 
     // poll
-    poll(&pollfds, 1, timeout);
+    Utils::SelectRead(receive_event, timeout);
 
     // lock
     mutex_rq.lock();
-- 
2.43.0


From a2a87f40d35dfc2624790b75529f143ab068c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 20/44] fix: graceful disconnection never ended when there was
 nothing to send

---
 Connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 64ce32c..f589cf1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -691,14 +691,15 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         // forced
         Utils::WriteEventFd(to_stop_event, 1);
     } else if (!is_disconnecting) {
-        // mark for disconnection
-        is_disconnecting = true;
         // graceful
         Request *dummy = new Request("_");
         // push a dummy request so that the
         // thread will call Send() and
         // eventually stop
         Push(dummy, false, 0, false);
+        // mark for disconnection
+        // (Push() doesn't accept anything after that)
+        is_disconnecting = true;
     }
 
     mutex_cd.unlock();
-- 
2.43.0


From ac9c7bafb4685bf851ff388cf565892dfdddca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 21/44] fix: don't queue a request after the connection was
 closed

---
 Connection.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index f589cf1..b1f0b46 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -543,17 +543,16 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
-    {
-        // lock
-        MTLock(__mcd, mutex_cd);
-
-        // not connected or disconnecting
-        if (!IsConnected() || IsDisconnecting()) {
-            // delete the data if it is not copied
-            if (!must_copy)
-                delete req;
-            return 0;
-        }
+    // lock (until the request is queued, so that
+    // the connection can't be closed before that)
+    MTLock(__mcd, mutex_cd);
+
+    // not connected or disconnecting
+    if (!IsConnected() || IsDisconnecting()) {
+        // delete the data if it is not copied
+        if (!must_copy)
+            delete req;
+        return 0;
     }
 
     // lock the send queue
-- 
2.43.0


From 37d1f6b1342f27d1279d48c763d5d19fc215501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 22/44] fix: keep a referenced connection until the last
 reference is gone

The wait ended with the first released reference, and the methods of
the connection were locked for the holder of the reference meanwhile.
---
 Connection.cpp | 37 +++++++++++++++++++++++++++----------
 Connection.hpp |  5 +++++
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index b1f0b46..fdce68b 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -145,21 +145,30 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
 
     // lock the reference counter
     c->mutex_ra.lock();
-    // still referenced by external code, setup event
-    if (c->GetRefs())
-        c->not_needed_event = eventfd(0, 0);
-    // unlock the reference counter
-    c->mutex_ra.unlock();
+    // still referenced by external code
+    while (c->GetRefs()) {
+        // setup event
+        if (c->not_needed_event == -1)
+            c->not_needed_event = eventfd(0, 0);
+        c->mutex_ra.unlock();
 
-    // needed by someone
-    if (c->not_needed_event != -1) {
         // wait until the Connection is not needed anymore
-        Utils::SelectRead(c->not_needed_event, -1);
+        // (its methods must be usable meanwhile)
+        c->mutex_cd.unlock();
+        Utils::ReadEventFd(c->not_needed_event, -1);
+        c->mutex_cd.lock();
 
-        // close the event
+        c->mutex_ra.lock();
+    }
+    // no more references from now on
+    c->is_finished = true;
+    // close the event
+    if (c->not_needed_event != -1) {
         close(c->not_needed_event);
         c->not_needed_event = -1;
     }
+    // unlock the reference counter
+    c->mutex_ra.unlock();
 
     // close (almost) everything
     shutdown(c->socket_fd, SHUT_RDWR);
@@ -485,6 +494,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // not disconnecting
     is_disconnecting = false;
+    is_finished = false;
 
     // reset IDs
     free_request_id = is_even_request_parts ? 2 : 1;
@@ -668,11 +678,18 @@ void DowowNetwork::Connection::IncreaseRefs() {
     mutex_ra.unlock();
 }
 
+bool DowowNetwork::Connection::TryIncreaseRefs() {
+    MTLock(__mra, mutex_ra);
+    if (is_finished) return false;
+    refs_amount++;
+    return true;
+}
+
 void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (not_needed_event != -1)
+    if (not_needed_event != -1 && !refs_amount)
         Utils::WriteEventFd(not_needed_event, 1);
     mutex_ra.unlock();
 }
diff --git a/Connection.hpp b/Connection.hpp
index e1b570f..0b2f4c8 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -127,6 +127,8 @@ namespace DowowNetwork {
 
         //! Amount of links to this connection outside the library.
         uint32_t refs_amount = 0;
+        //! Is the connection over and not referenced anymore?
+        bool is_finished = false;
 
         //! Background thread.
         std::thread *background_thread = 0;
@@ -254,6 +256,9 @@ namespace DowowNetwork {
         /// MT-Safe
         void IncreaseRefs();
         /// MT-Safe
+        /// \return false if the connection is already over.
+        bool TryIncreaseRefs();
+        /// MT-Safe
         void DecreaseRefs();
 
         /// \warning    Do not call this function in non-multithreaded handler
-- 
2.43.0


From b5c6be26818237e4eb36ed305da850abca4ec0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 23/44] fix: deadlock of the handlers of two connections that
 push to each other

---
 Connection.cpp | 12 ++++++++++--
 Connection.hpp |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index fdce68b..e22b140 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -198,6 +198,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     Utils::WriteEventFd(c->stopped_event, 1);
 }
 
+void DowowNetwork::Connection::CallHandler(RequestHandler h, Request* r) {
+    // the handler may use other connections, whose handlers
+    // may be using this one: never keep it locked meanwhile
+    mutex_cd.unlock();
+    (*h)(this, r);
+    mutex_cd.lock();
+}
+
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     // no request
     if (!r) return false;
@@ -206,7 +214,7 @@ bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     auto h = GetHandlerNamed(r->GetName());
     // try to handle
     if (h) {
-        (*h)(this, r);
+        CallHandler(h, r);
         return true;
     }
 
@@ -215,7 +223,7 @@ bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
 
     // couldn't handle using named handler, using default
     if (h) {
-        (*h)(this, r);
+        CallHandler(h, r);
         return true;
     }
     
diff --git a/Connection.hpp b/Connection.hpp
index 0b2f4c8..c094bbd 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -150,6 +150,9 @@ namespace DowowNetwork {
                 Was the Request processed by some handler?
         */
         bool PassThroughHandlers(Request* req);
+
+        //! Call the handler with unlocked 'connected/disconnecting' mutex.
+        void CallHandler(RequestHandler h, Request* req);
     protected:
         /// This constructor does nothing.
         /*!
-- 
2.43.0


From 6497d1d0a1f5c1bf5a8717c7f9d997f564b0bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 24/44] fix: don't use the events of an interrupted poll of a
 connection

---
 Connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index e22b140..4c44e5b 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -65,10 +65,12 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.unlock();
 
         // let's poll!
-        poll(
+        int poll_res = poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
+        // interrupted, there are no events
+        if (poll_res == -1) continue;
 
         // lock connected/disconnecting mutex
         MTLock(__mcd, c->mutex_cd);
-- 
2.43.0


From c2e0d333d6392f628c54c085226a3dae4716468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 25/44] fix: a peer that doesn't read could block the thread,
 thus disconnection

---
 Connection.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index 4c44e5b..0c129e9 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -4,6 +4,7 @@
 #include <endian.h>
 #include <unistd.h>
 #include <stdint.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <poll.h>
 #include <sys/socket.h>
@@ -390,7 +391,12 @@ bool DowowNetwork::Connection::Send() {
             socket_fd,
             send_buffer + send_buffer_offset,
             left_to_send < send_block_size ? left_to_send : send_block_size,
-            MSG_NOSIGNAL);
+            MSG_NOSIGNAL | MSG_DONTWAIT);
+
+        // can't send that much right now, wait for POLLOUT
+        // (a blocked thread would ignore any other events)
+        if (send_res == -1 && (errno == EAGAIN || errno == EWOULDBLOCK))
+            return true;
 
         // check result
         if (send_res == -1 || send_res == 0) {
-- 
2.43.0


From 724ec0c429cce2480e445ad74f342618c921fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 26/44] fix: don't set closed timers

---
 Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 0c129e9..6c58e15 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -180,6 +180,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     close(c->to_stop_event);
     close(c->our_sa_timer);
     close(c->their_na_timer);
+    // these may be accessed after disconnection
+    c->our_sa_timer = -1;
+    c->their_na_timer = -1;
 
     // delete buffers
     c->DeleteSendBuffer();
@@ -551,6 +554,7 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
+    MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
 }
@@ -560,6 +564,7 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 }
 
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
+    MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
 }
-- 
2.43.0


From bab4f99a55f65876afe9652ac348190d2386ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 27/44] fix: leak of the requests that were never pulled

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 6c58e15..9bdf8b8 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -845,6 +845,12 @@ DowowNetwork::Connection::~Connection() {
         delete background_thread;
     }
 
+    // delete the requests nobody has pulled
+    while (recv_queue.size()) {
+        delete recv_queue.front();
+        recv_queue.pop();
+    }
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From ba76885ae1d0ef6c50abb2969417d71bce409f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 28/44] fix: don't use a deleted thread or an unknown domain if
 a socket is unsupported

---
 Connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index 9bdf8b8..6fae25c 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -474,10 +474,11 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         background_thread->detach();
         // free memory
         delete background_thread;
+        background_thread = 0;
     }
 
     // get the type
-    int socket_domain;
+    int socket_domain = AF_UNSPEC;
     socklen_t len = sizeof(socket_domain);
     getsockopt(
         socket_fd,
-- 
2.43.0


From 296755196ce42a08205e39e88ff4413851d5cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 29/44] fix: clients used the same half of request IDs as the
 server

---
 Client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 0e4fd22..1446120 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -64,8 +64,8 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // unset temp socket fd
     c->temp_socket_fd = -1;
 
-    // setup the request id part
-    c->SetEvenRequestIdsPart(true);
+    // setup the request id part (the server's part is even)
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
@@ -103,8 +103,8 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     c->InitializeByFD(c->temp_socket_fd);
     c->temp_socket_fd = -1;
 
-    // request part setup
-    c->SetEvenRequestIdsPart(true);
+    // request part setup (the server's part is even)
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
-- 
2.43.0


From 93b816650be59edea6d969cc963f728de3347a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 30/44] fix: honour the timeout of ConnectTcp()

The flag wasn't O_NONBLOCK, and the result wasn't taken.
---
 Client.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 1446120..6d72e57 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -46,7 +46,12 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // in progress
     if (connect_res == -1 && errno == EINPROGRESS) {
         // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
+        connect_res = !Utils::SelectWrite(c->temp_socket_fd, timeout);
+        // check if succeeded
+        int error = 0;
+        socklen_t len = sizeof(error);
+        getsockopt(c->temp_socket_fd, SOL_SOCKET, SO_ERROR, &error, &len);
+        if (error) connect_res = -1;
     }
 
     // fail
@@ -59,7 +64,8 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
         return;
     }
 
-    // connected
+    // connected, make socket blocking
+    fcntl(c->temp_socket_fd, F_SETFL, 0);
     c->InitializeByFD(c->temp_socket_fd);
     // unset temp socket fd
     c->temp_socket_fd = -1;
@@ -129,7 +135,7 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
+    int nb_state = O_NONBLOCK;
     fcntl(temp_socket_fd, F_SETFL, nb_state);
 
     // create event
-- 
2.43.0


From b3589e8042c0e29c17c8282a13cf43487822b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 31/44] fix: overflow of the address by a long path of UNIX
 socket

---
 Client.cpp | 4 ++++
 Server.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index 6d72e57..f0c578a 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -160,6 +160,10 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (IsConnected() || IsConnecting())
         return false;
 
+    // check if the path is too long
+    if (socket_path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // temp socket fd
     temp_socket_fd =
         socket(AF_UNIX, SOCK_STREAM, 0);
diff --git a/Server.cpp b/Server.cpp
index a880342..7dd0d22 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -178,6 +178,10 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // check if the path is too long
+    if (path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
     // check if failed
-- 
2.43.0


From e02f7a18d8624efd71d26b1cccc345c7bd984365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 32/44] fix: servers without handlers

---
 Server.cpp | 5 +++--
 Server.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 7dd0d22..461a5a8 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -94,8 +94,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         i = 0;
         for (auto c : s->connections) {
             if (pollfds[2 + i++].revents & POLLIN) {
-                // call 'disconnected' handler
-                (*s->GetDisconnectedHandler())(s, c);
+                // call 'disconnected' handler if set
+                if (s->GetDisconnectedHandler())
+                    (*s->GetDisconnectedHandler())(s, c);
                 // delete the connection
                 delete c;
                 deleted_conns.push_back(c);
diff --git a/Server.hpp b/Server.hpp
index f90bf6c..babbb5d 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -57,10 +57,10 @@ namespace DowowNetwork {
         //! Handler for new connections.
         //! Called right after the polling thread for
         //! connection is started.
-        ConnectionHandler connected_handler;
+        ConnectionHandler connected_handler = 0;
         //! Handler for disconnection.
         //! Called
-        ConnectionHandler disconnected_handler;
+        ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
         Connection* AcceptOne();
-- 
2.43.0


From ec6b6c8bdd8c684e70c7ba3868bb139738b3d19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 33/44] fix: interrupted poll stopped the server

---
 Server.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 461a5a8..8ecb2eb 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -69,10 +69,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         }
 
         // poll events
-        poll(
+        int poll_res = poll(
             pollfds,
             2 + s->connections.size(),
             -1);
+        // interrupted, there are no events
+        if (poll_res == -1) {
+            delete[] pollfds;
+            continue;
+        }
 
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
@@ -121,14 +126,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             }
         }
 
-        // *************************************
-        // no new connections, no deleted - quit
-        // *************************************
-        else if (!deleted_conns.size()) {
-            delete[] pollfds;
-            break;
-        }
-
         // free memory
         delete[] pollfds;
         continue;
-- 
2.43.0


From 4943a79b3f6f32d488de2c680e57250dd1bfb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 34/44] fix: don't skip the disconnected handler when the
 server is being stopped

---
 Server.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 8ecb2eb..a599359 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -82,16 +82,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
-        // ***************************
-        // check if 'to_stop' occurred
-        // ***************************
-        if (pollfds[1].revents & POLLIN) {
-            // free pollfds memory
-            delete[] pollfds;
-            // break the thread loop
-            break;
-        }
-
         // ************************************
         // check if some connections are closed
         // ************************************
@@ -111,6 +101,16 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         for (auto c : deleted_conns)
             s->connections.remove(c);
 
+        // ***************************
+        // check if 'to_stop' occurred
+        // ***************************
+        if (pollfds[1].revents & POLLIN) {
+            // free pollfds memory
+            delete[] pollfds;
+            // break the thread loop
+            break;
+        }
+
         // ***********************
         // check if new connection
         // ***********************
-- 
2.43.0


From 71bb97989ec9d5b68a0a48f6abedd783b1fcd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 35/44] fix: the connected handler got a connection without ID
 that couldn't be found

---
 Server.cpp | 15 +++++++++------
 Server.hpp |  3 ++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index a599359..31a3c1e 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -20,7 +20,7 @@
 #include "Utils.hpp"
 #include "Server.hpp"
 
-DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
+DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     // accept
     int temp_fd = accept4(socket_fd, 0, 0, 0);
     // failed
@@ -29,6 +29,11 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
     // create a connection
     Connection *conn = new Connection(temp_fd);
 
+    // assign the id
+    conn->id = id;
+    // add to the list of connections
+    connections.push_back(conn);
+
     // call the handler if set
     if (GetConnectedHandler()) {
         (*GetConnectedHandler())(this, conn);
@@ -116,13 +121,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         if (pollfds[0].revents & POLLIN) {
             // accept
-            Connection *new_conn = s->AcceptOne();
+            Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
             if (new_conn) {
-                // assign the id
-                new_conn->id = free_conn_id++;
-                // add to the list of connections
-                s->connections.push_back(new_conn);
+                // the id is used
+                free_conn_id++;
             }
         }
 
diff --git a/Server.hpp b/Server.hpp
index babbb5d..4080b60 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -63,7 +63,8 @@ namespace DowowNetwork {
         ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
-        Connection* AcceptOne();
+        /// \param id the ID for the new connection
+        Connection* AcceptOne(uint32_t id);
 
         static void ServerThreadFunc(Server *server);
     public:
-- 
2.43.0


From 83c2ce7c4826dc4f0762aef24af2679a41f91c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 36/44] fix: GetConnection() could return a connection being
 deleted

---
 Server.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 31a3c1e..456ad35 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -335,29 +335,41 @@ int32_t DowowNetwork::Server::GetMaxConnections() {
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string tag) {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
+    // skip the ones that are about to be deleted
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
         [&](Connection *c) {
-            return c->tag == tag;
+            return c->tag == tag && c->TryIncreaseRefs();
         });
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    auto result = new SafeConnection(*it);
+    (*it)->DecreaseRefs();
+    return result;
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
+    // skip the one that is about to be deleted
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
         [&](Connection *c) {
-            return c->id == id;
+            return c->id == id && c->TryIncreaseRefs();
         });
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    auto result = new SafeConnection(*it);
+    (*it)->DecreaseRefs();
+    return result;
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
-- 
2.43.0


From bdf3100303b25504fe2916521602e523b82bc841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 37/44] fix: deadlock of a stopping server with the handlers
 that use it

---
 Server.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 456ad35..d2c4e8a 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -134,17 +134,23 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         continue;
     }
 
-    // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    // nobody can get the open connections anymore
+    s->mutex_server.lock();
+    std::list<Connection*> open_conns;
+    open_conns.swap(s->connections);
+    s->mutex_server.unlock();
 
     // force open connections to close
     // make all the open connections close
-    for (auto c : s->connections) {
+    // (not locked: their handlers may be using the server)
+    for (auto c : open_conns) {
         c->Disconnect(true);
         c->WaitForStop(-1);
         delete c;
     }
-    s->connections.clear();
+
+    // lock
+    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
     // close the server socket
     close(s->socket_fd);
-- 
2.43.0


From 926334f0934cb577e543664e53d245cbf0d2b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 38/44] fix: notify about the stop of the server when it's
 complete

The waiters could destroy or restart the server too early, and the
event wasn't reset on restart.
---
 Server.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index d2c4e8a..092cb3c 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -160,9 +160,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // clear
     s->connections.clear();
 
-    // notify about stop
-    Utils::WriteEventFd(s->stopped_event, 1);
-
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
         unlink(s->unix_socket_path.c_str());
@@ -171,6 +168,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->socket_fd = -1;
     s->to_stop_event = -1;
     s->socket_type = SocketTypeUndefined;
+
+    // notify about stop
+    Utils::WriteEventFd(s->stopped_event, 1);
 }
 
 DowowNetwork::Server::Server() {
@@ -230,7 +230,8 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
     }
 
-    // success
+    // success, reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
@@ -299,7 +300,8 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
     }
 
-    // success
+    // success, reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
     socket_type = SocketTypeTcp;
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
@@ -379,11 +381,16 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
-    // check if server is not started
-    if (GetType() == SocketTypeUndefined) return;
+    {
+        // lock
+        std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
 
-    // make the thread stop
-    Utils::WriteEventFd(to_stop_event, 1);
+        // check if server is not started
+        if (GetType() == SocketTypeUndefined) return;
+
+        // make the thread stop
+        Utils::WriteEventFd(to_stop_event, 1);
+    }
 
     WaitForStop(timeout);
 }
@@ -400,6 +407,9 @@ DowowNetwork::Server::~Server() {
     // stop
     Stop(-1);
 
+    // the thread keeps it locked until its very end
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From c9c9329d79a0bdda5c3d9682cba8652ae7232baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 39/44] fix: apply the changed connections limit to the running
 server

---
 Server.cpp | 40 ++++++++++++++++++++++++++++------------
 Server.hpp |  7 +++++++
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 092cb3c..87b076d 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -43,6 +43,11 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     return conn;
 }
 
+bool DowowNetwork::Server::CanAccept() {
+    if (max_connections < 0) return true;
+    return static_cast<int32_t>(connections.size()) < max_connections;
+}
+
 void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // free id for a new connection
     uint32_t free_conn_id = 1;
@@ -50,33 +55,31 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // infinite loop
     while (true) {
         // whether should accept new clients
-        bool accept_new = true;
-        if (s->max_connections >= 0) {
-            accept_new =
-                static_cast<int32_t>(s->connections.size()) <
-                s->max_connections;
-        }
+        bool accept_new = s->CanAccept();
 
-        pollfd *pollfds = new pollfd[2 + s->connections.size()];
+        pollfd *pollfds = new pollfd[3 + s->connections.size()];
         // server socket
         pollfds[0].fd = accept_new ? s->socket_fd : -1;
         pollfds[0].events = POLLIN;
         // 'to_stop' event
         pollfds[1].fd = s->to_stop_event;
         pollfds[1].events = POLLIN;
+        // 'limit changed' event
+        pollfds[2].fd = s->limit_event;
+        pollfds[2].events = POLLIN;
 
         // ask all connections for a 'closed' event
         size_t i = 0;
         for (auto c : s->connections) {
-            pollfds[2 + i].fd = c->GetStoppedEvent();
-            pollfds[2 + i].events = POLLIN;
+            pollfds[3 + i].fd = c->GetStoppedEvent();
+            pollfds[3 + i].events = POLLIN;
             ++i;
         }
 
         // poll events
         int poll_res = poll(
             pollfds,
-            2 + s->connections.size(),
+            3 + s->connections.size(),
             -1);
         // interrupted, there are no events
         if (poll_res == -1) {
@@ -93,7 +96,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         std::list<Connection*> deleted_conns;
         i = 0;
         for (auto c : s->connections) {
-            if (pollfds[2 + i++].revents & POLLIN) {
+            if (pollfds[3 + i++].revents & POLLIN) {
                 // call 'disconnected' handler if set
                 if (s->GetDisconnectedHandler())
                     (*s->GetDisconnectedHandler())(s, c);
@@ -116,10 +119,16 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             break;
         }
 
+        // ****************************
+        // check if the limit's changed
+        // ****************************
+        if (pollfds[2].revents & POLLIN)
+            Utils::ReadEventFd(s->limit_event, 0);
+
         // ***********************
         // check if new connection
         // ***********************
-        if (pollfds[0].revents & POLLIN) {
+        if ((pollfds[0].revents & POLLIN) && s->CanAccept()) {
             // accept
             Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
@@ -175,6 +184,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
 
 DowowNetwork::Server::Server() {
     stopped_event = eventfd(0, 0);
+    limit_event = eventfd(0, 0);
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -335,7 +345,12 @@ uint8_t DowowNetwork::Server::GetType() {
 }
 
 void DowowNetwork::Server::SetMaxConnections(int32_t c) {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     max_connections = c;
+    // the thread must reconsider whether to accept new clients
+    Utils::WriteEventFd(limit_event, 1);
 }
 
 int32_t DowowNetwork::Server::GetMaxConnections() {
@@ -412,4 +427,5 @@ DowowNetwork::Server::~Server() {
 
     // close the stopped eventfd
     close(stopped_event);
+    close(limit_event);
 }
diff --git a/Server.hpp b/Server.hpp
index 4080b60..a287a67 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -51,6 +51,10 @@ namespace DowowNetwork {
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
 
+        //! 'limit changed' event.
+        //! Occurs when the connections limit is changed.
+        int limit_event = -1;
+
         // mutex for any operations
         std::recursive_mutex mutex_server;
 
@@ -66,6 +70,9 @@ namespace DowowNetwork {
         /// \param id the ID for the new connection
         Connection* AcceptOne(uint32_t id);
 
+        /// Check if the limit allows one more connection.
+        bool CanAccept();
+
         static void ServerThreadFunc(Server *server);
     public:
         /// Server constructor.
-- 
2.43.0


From 498914a96f227ba4f41c89423ff87aaa5babd794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 40/44] fix: request handlers were changed while being looked
 for by another thread

---
 Connection.cpp | 6 ++++++
 Connection.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 6fae25c..7681b45 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -770,14 +770,17 @@ bool DowowNetwork::Connection::WaitForStop(int timeout) {
 }
 
 void DowowNetwork::Connection::SetHandlerDefault(RequestHandler h) {
+    MTLock(__mh, mutex_h);
     handler_default = h;
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerDefault() {
+    MTLock(__mh, mutex_h);
     return handler_default;
 }
 
 void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler h) {
+    MTLock(__mh, mutex_h);
     // must delete and is set
     if (h == 0) {
         auto it = handlers_named.find(name);
@@ -792,6 +795,9 @@ void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerNamed(std::string name) {
+    // the connection's thread looks for the handlers, too
+    MTLock(__mh, mutex_h);
+
     auto it = handlers_named.find(name);
     // is not set
     if (it == handlers_named.end()) return 0;
diff --git a/Connection.hpp b/Connection.hpp
index c094bbd..f703b54 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -52,6 +52,8 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_cd;
         //! mutex for background thread pointer
         std::recursive_mutex mutex_bt;
+        //! mutex for request handlers
+        std::recursive_mutex mutex_h;
 
         //! The ID of the free request.
         uint32_t free_request_id = 1;
-- 
2.43.0


From 2baafd480f5146d1db97e021947b01a7966dbbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 41/44] fix: ConnectUnix ignored the timeout when the server
 was not accepting

---
 Client.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index f0c578a..95c7364 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -9,6 +9,7 @@
 #include <sys/timerfd.h>
 #include <sys/eventfd.h>
 #include <sys/poll.h>
+#include <sys/time.h>
 #include <time.h>
 #include <fcntl.h>
 #include <thread>
@@ -172,9 +173,18 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (temp_socket_fd == -1)
         return false;
 
-    // make socket nonblocking
-    int nb_state = 1;
-    fcntl(temp_socket_fd, F_SETFL, nb_state);
+    // limit the time of waiting for the server
+    // (a nonblocking UNIX socket wouldn't wait at all)
+    if (timeout >= 0) {
+        // zero is for infinite
+        timeval limit { timeout, timeout ? 0 : 1 };
+        setsockopt(
+            temp_socket_fd,
+            SOL_SOCKET,
+            SO_SNDTIMEO,
+            &limit,
+            sizeof(limit));
+    }
 
     // create event
     connect_event = eventfd(0, 0);
-- 
2.43.0


From 244005ffdac35ded5b67c039cd4860ff97c2a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:38 +0000
Subject: [PATCH 42/44] fix: decoding deeply nested arrays exhausted the stack

---
 values/ValueArr.cpp | 6 ++++++
 values/ValueArr.hpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 79ee965..854a43a 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,6 +11,9 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // nested too deep: decoding it would exhaust the stack
+    if (depth >= max_depth) return 0;
+
     // check length
     if (length < 4) return 0;
 
@@ -36,6 +39,9 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
         uint8_t type = data[read_offset];
         // try to create the value
         Value* val = CreateValue(type);
+        // arrays must know how deep they are
+        if (type == ValueTypeArr)
+            static_cast<ValueArr*>(val)->depth = depth + 1;
         // try to deserialize value
         uint32_t read_bytes = val->Deserialize(data + read_offset, length - read_offset);
         // invalid element - invalidate array
diff --git a/values/ValueArr.hpp b/values/ValueArr.hpp
index 7b63370..bd6b1e7 100644
--- a/values/ValueArr.hpp
+++ b/values/ValueArr.hpp
@@ -11,6 +11,11 @@ namespace DowowNetwork {
     private:
         // buffer
         std::vector<Value*> array;
+        // how many arrays is this one inside of (only known for
+        // the arrays that are being decoded)
+        uint32_t depth = 0;
+        // the arrays nested deeper than that are not decoded
+        static const uint32_t max_depth = 1024;
     protected:
         uint32_t DeserializeInternal(const char* data, uint32_t length);
         const char* SerializeInternal() const;
-- 
2.43.0


From bfd11a39460e53214bdeb160715a5fd5b45ed9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:51 +0000
Subject: [PATCH 43/44] fix: delete ended connections only after all the
 disconnected handlers

---
 Server.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 87b076d..d1471f3 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -100,14 +100,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // call 'disconnected' handler if set
                 if (s->GetDisconnectedHandler())
                     (*s->GetDisconnectedHandler())(s, c);
-                // delete the connection
-                delete c;
                 deleted_conns.push_back(c);
             }
         }
-        // remove deleted connections
-        for (auto c : deleted_conns)
+        // remove and delete these connections
+        // (not before: the handlers may look for others in the list)
+        for (auto c : deleted_conns) {
             s->connections.remove(c);
+            delete c;
+        }
 
         // ***************************
         // check if 'to_stop' occurred
-- 
2.43.0


From 639a5e5a4aa02b39a0ce291c13b1f09d1d6a8a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:49 +0000
Subject: [PATCH 44/44] fix: disconnect all the connections before waiting for
 any of them

---
 Server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Server.cpp b/Server.cpp
index d1471f3..c96ed67 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -153,8 +153,10 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // force open connections to close
     // make all the open connections close
     // (not locked: their handlers may be using the server)
-    for (auto c : open_conns) {
+    for (auto c : open_conns)
         c->Disconnect(true);
+    // (all of them before waiting: somebody may be using several)
+    for (auto c : open_conns) {
         c->WaitForStop(-1);
         delete c;
     }
-- 
2.43.0

