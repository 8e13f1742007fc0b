From a1ab358fcc3ae23689dcc7e8782d9d5bb17d83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:22 +0000
Subject: [PATCH 001/126] fix: base64 decoding accepted the characters '{',
 '|', '}', '~' and DEL as valid

---
 src/majordomo/include/majordomo/base64pp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/base64pp.hpp b/src/majordomo/include/majordomo/base64pp.hpp
index 2717fe7..484903a 100644
--- a/src/majordomo/include/majordomo/base64pp.hpp
+++ b/src/majordomo/include/majordomo/base64pp.hpp
@@ -55,7 +55,7 @@ inline bool is_valid_base64_char(char c) {
         return true;
     }
 
-    if ((c >= 'a') && ('z')) {
+    if ((c >= 'a') && (c <= 'z')) {
         return true;
     }
 
-- 
2.43.0


From eacdab530726d916070b84600f18771b3188efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 002/126] fix: URI::decode read past the end of the input and
 used an uninitialised value for malformed percent-escapes

---
 src/core/include/URI.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 214f559..89387fd 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -162,9 +162,12 @@ public:
             char c = s[i];
             if (c == '%') {
                 // percent-encode RFC 3986 section 2.2 Reserved Characters i.e. [!#$%&'()*+,/:;=?@[]]
-                if constexpr (check == STRICT) {
-                    if (!std::isxdigit(s[i + 1])) {
-                        throw URISyntaxException(std::format("additional erroneous character '{}' found after '%' at {} of '{}'", s[i + 1], i + 1, s));
+                if (i + 2 >= s.size() || !std::isxdigit(static_cast<uint8_t>(s[i + 1])) || !std::isxdigit(static_cast<uint8_t>(s[i + 2]))) {
+                    if constexpr (check == STRICT) {
+                        throw URISyntaxException(std::format("incomplete or erroneous escape sequence '{}' found at {} of '{}'", s.substr(i, 3), i, s));
+                    } else {
+                        decoded << c; // not an escape sequence -> keep the '%' literally
+                        continue;
                     }
                 }
                 int                d;
-- 
2.43.0


From 72eadd18d49ec25c5dea4af67bb83aaf8c982e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 003/126] fix: parsing a one-character URI such as "a" threw
 std::out_of_range

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 89387fd..f0817f5 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -398,7 +398,7 @@ private:
             if ((source.length() > (authOffset + 1) && source[schemeSize] == '/' && source[schemeSize + 1] == '/')
                     || (schemeSize == 0 && source[schemeSize] != '/' && source[schemeSize] != '?' && source[schemeSize] != '#')) {
                 // authority isUnreserved defined starting with '//'
-                authOffset += 2;
+                authOffset = std::min(authOffset + 2, source.length());
                 authEnd    = std::min(source.find_first_of("/?#", authOffset), source.length());
                 _authority = source.substr(authOffset, authEnd - authOffset);
                 if constexpr (check == STRICT) {
-- 
2.43.0


From e1fc27f616efddd674be8b5e12227a1d2db6101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 004/126] fix: URI copy-assignment kept dangling
 user/password/host/port views of the previous value

---
 src/core/include/URI.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index f0817f5..ee94305 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -82,7 +82,8 @@ public:
         }
 
         _parsedAuthority = other._parsedAuthority;
-        if (!_parsedAuthority) {
+        if (!_parsedAuthority) { // parsed on demand -> drop what the views referred to before the assignment
+            _userName = _pwd = _hostName = _port = std::string_view();
             return *this;
         }
         _userName = adjustedView(other._userName);
-- 
2.43.0


From cdfd83f8fca2fb768bd5d1aa57f63ee4f76151c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 005/126] fix: URI::queryParamMap did not decode a trailing
 value-less key and cached a partial map after an error

---
 src/core/include/URI.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index ee94305..f2c539d 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -218,6 +218,7 @@ public:
             if (!std::all_of(_query.begin(), _query.end(), [](char c) { return isUnreserved(c) || c == '&' || c == ';' || c == '=' || c == '%' || c == ':' || c == '/'; })) {
                 throw URISyntaxException(std::format("URI query contains illegal characters: {}", _query));
             }
+            decode(_query); // throws on any malformed escape sequence before the (cached) map is partially filled
         }
         size_t readPos = 0;
         while (readPos < _query.length()) {
@@ -246,7 +247,7 @@ public:
                 _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = std::string(_query.substr(readPos, _query.length() - readPos));
+                auto key       = decode(_query.substr(readPos, _query.length() - readPos));
                 _queryMap[key] = std::nullopt;
                 break;
             }
-- 
2.43.0


From 3bea63621357b2f910a0fb6bf94996bda898737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 006/126] fix: URI parser reported the authority of a
 scheme-less '//authority/path' reference as part of its path

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index f2c539d..c65ed8c 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -369,7 +369,7 @@ private:
             return;
         }
 
-        const auto  pathOnly   = source[0] == '/';
+        const auto  pathOnly   = source[0] == '/' && !source.starts_with("//");
 
         std::size_t schemeSize = 0UL;
         if (!pathOnly) {
-- 
2.43.0


From 176de7f72f2ff6983867aacc9584e8498a0e35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 007/126] fix: URI::port() terminated the process for a
 non-numeric port and truncated ports above 65535

---
 src/core/include/URI.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index c65ed8c..f0db436 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -2,6 +2,8 @@
 #define OPENCMW_CPP_URI_HPP
 #include <algorithm>
 #include <cassert>
+#include <charconv>
+#include <cstdint>
 #include <iomanip>
 #include <ios>
 #include <optional>
@@ -189,7 +191,7 @@ public:
     inline std::optional<std::string> user() const noexcept { parseAuthority(); return returnOpt(_userName); }
     inline std::optional<std::string> password() const noexcept { parseAuthority(); return returnOpt(_pwd); }
     inline std::optional<std::string> hostName() const noexcept { parseAuthority(); return returnOpt(_hostName); }
-    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return _port.empty() ? std::nullopt : std::optional(std::stoi(std::string{ _port.begin(), _port.end() }));}
+    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return parsePort(_port); }
     inline std::optional<std::string> path() const noexcept { return returnOpt(_path); }
     inline std::optional<std::string> queryParam() const noexcept { return returnOpt(_query); }
     inline std::optional<std::string> fragment() const noexcept { return returnOpt(_fragment); }
@@ -289,7 +291,7 @@ public:
             if (!uri._userName.empty())  { _userName = uri._userName; }
             if (!uri._pwd.empty())       { _pwd = uri._pwd; }
             if (!uri._hostName.empty())  { _host = uri._hostName; }
-            if (!uri._port.empty())      { _port = std::stoi(std::string(uri._port)); }
+            if (!uri._port.empty())      { _port = parsePort(uri._port); }
             if (!uri._path.empty())      { _path = uri._path; }
             if (!uri._query.empty())     { _query = uri._query; }
             if (!uri._fragment.empty())  { _fragment = uri._fragment; }
@@ -355,6 +357,12 @@ private:
         return src.empty() ? std::nullopt : std::optional<std::string>(src);
     };
 
+    static std::optional<uint16_t> parsePort(const std::string_view &src) noexcept { // nullopt if not a number that fits a port
+        uint16_t   port{};
+        const auto result = std::from_chars(src.data(), src.data() + src.size(), port);
+        return result.ec == std::errc() && result.ptr == src.data() + src.size() ? std::optional(port) : std::nullopt;
+    }
+
     inline void parseURI() {
         std::string_view source(_str.c_str(), _str.size());
         if constexpr (check == STRICT) {
-- 
2.43.0


From 7af3264962f6a8d0db8afd282bbd4f780d11d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 008/126] fix: URI split a bracketed IPv6 host at its first
 colon

---
 src/core/include/URI.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index f0db436..66b8036 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -472,7 +472,8 @@ private:
         } else {
             userSplit = 0;
         }
-        size_t portSplit = std::min(_authority.find_first_of(':', userSplit), _authority.length());
+        const size_t ipv6End   = userSplit < _authority.length() && _authority[userSplit] == '[' ? _authority.find(']', userSplit) : std::string_view::npos;
+        size_t       portSplit = std::min(_authority.find_first_of(':', ipv6End == std::string_view::npos ? userSplit : ipv6End), _authority.length());
         if (portSplit != std::string_view::npos && portSplit < _authority.length()) {
             // port defined
             _hostName = _authority.substr(userSplit, portSplit - userSplit);
-- 
2.43.0


From f4872f2449b3941f3acf10ea58145015b8bc3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:30 +0000
Subject: [PATCH 009/126] fix: UriFactory::toString modified the factory,
 appending the query parameters again on every call

---
 src/core/include/URI.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 66b8036..af1eaab 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -263,14 +263,14 @@ public:
     bool operator==(const URI &other) const noexcept { return _str == other.str(); }
 
     class UriFactory {
-        mutable std::string     _authority;
+        std::string             _authority;
         std::string             _scheme;
         std::string             _userName;
         std::string             _pwd;
         std::string             _host;
         std::optional<uint16_t> _port;
         std::string             _path;
-        mutable std::string     _query;
+        std::string             _query;
         std::string             _fragment;
         // local map to overwrite _query parameter if set
         std::unordered_map<std::string, std::optional<std::string>> _queryMap;
@@ -311,34 +311,35 @@ public:
         // clang-format on
 
         std::string toString() const {
-            if (_authority.empty()) {
+            std::string authority = _authority;
+            std::string query     = _query;
+            if (authority.empty()) {
                 const std::string optColon1 = (_pwd.empty() || _userName.empty()) ? "" : ":";
                 const std::string pwdPart   = _userName.empty() ? "" : _pwd;
                 const std::string atSign    = _userName.empty() ? "" : "@"; // after “user[:pwd]”
                 const std::string optColon2 = _port ? ":" : "";             // before port
                 const std::string portPart  = _port ? std::to_string(*_port) : "";
 
-                _authority                  = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
+                authority                   = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
             }
 
-            // TODO: Calling toString multiple times appends parameters over and over again
             for (const auto &[key, value] : _queryMap) {
                 // RFC-3986: “key[=value]” pairs joined by ‘&’
-                const std::string ampersand  = _query.empty() ? "" : "&";
+                const std::string ampersand  = query.empty() ? "" : "&";
                 const std::string encodedKey = encode(key);
                 const std::string equalSign  = value ? "=" : "";
                 const std::string encodedVal = value ? encode(value.value()) : "";
 
-                _query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
+                query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
             }
 
             const std::string colon     = _scheme.empty() ? "" : ":";
-            const std::string authSlash = (_authority.empty() || _authority.starts_with("//")) ? "" : "//";
-            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || _authority.empty()) ? "" : "/";
-            const std::string qMark     = (_query.empty() || _query.starts_with('?')) ? "" : "?";
+            const std::string authSlash = (authority.empty() || authority.starts_with("//")) ? "" : "//";
+            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || authority.empty()) ? "" : "/";
+            const std::string qMark     = (query.empty() || query.starts_with('?')) ? "" : "?";
             const std::string hashMark  = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
 
-            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, _authority, pathSlash, _path, qMark, _query, hashMark, encode(_fragment));
+            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, encode(_fragment));
         }
 
         URI build() {
-- 
2.43.0


From 56a72229dd7e9d013c2ac848bed0e10ff886390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:30 +0000
Subject: [PATCH 010/126] fix: SpinWait::spinUntil gave up although no timeout
 was set and never timed out for a timeout of 1 ms

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From 1af830616d8b6a77cbb1cd1053bdeba1f52202d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 011/126] fix: BasicSetting::ScopedAccess::get() returned the
 pointer instead of the value and did not compile

---
 src/disruptor/include/BasicSetting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..550172a 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -145,13 +145,13 @@ public:
 
         // read-only access
         constexpr          operator const SettingType &() const noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
-        constexpr const T &get() const noexcept { return _currentValue; }
+        constexpr const T &get() const noexcept { return *_currentValue; }
         constexpr const T *operator->() const noexcept { return _currentValue; }
 
         // read-write access
         constexpr operator SettingType &() noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
         template<bool b = true>
-        requires enableMutableAccess T &get() noexcept { return _currentValue; }
+        requires enableMutableAccess T &get() noexcept { return *_currentValue; }
         template<bool b = true>
         requires enableMutableAccess T &operator=(const T &newVal) {
             *_currentValue = newVal;
-- 
2.43.0


From 46f9bd96df761452e6189e5ca703b78118321a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 012/126] fix: a value set with BasicSetting::replace by the
 real-time thread was lost at its next access

---
 src/disruptor/include/BasicSetting.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 550172a..bf954c0 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -285,9 +285,8 @@ public:
     void realtimeReplace(Args &&...args) {
         T    obj(std::forward<Args>(args)...);
 
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
-        releaseIndex(idx);
+        realtimeCopy = std::move(obj);
+        realtimeRelease();
     }
 
     const T &nonRealtimeAcquire() {
-- 
2.43.0


From 2603eafb7c3ad5e0a96dd48485cb6720fd13b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 013/126] fix: setThreadName silently ignored names longer than
 15 characters, read past the end of string views and never reported errors

---
 src/core/include/ThreadAffinity.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 1f2c1dc..e78136c 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -139,7 +139,8 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
     if (handle == 0U) {
         throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
-    if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
+    const std::string name{ threadName.substr(0, THREAD_MAX_NAME_LENGTH - 1) }; // zero-terminated, longer names are refused by the OS
+    if (int rc = pthread_setname_np(handle, name.c_str()); rc != 0) {
         throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
-- 
2.43.0


From fa3ea28b9b59691dc900e12e095758c82d5f3106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:52 +0000
Subject: [PATCH 014/126] fix: the std::system_errors thrown by the thread
 helpers referenced a destroyed error category

---
 src/core/include/ThreadAffinity.hpp | 52 ++++++++++++++++-------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index e78136c..6930fe3 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -58,6 +58,12 @@ public:
     };
 };
 
+/// category object referenced by the thrown std::system_errors, i.e. needs to outlive them
+inline const std::error_category &thread_error_category() noexcept {
+    static const thread_exception category;
+    return category;
+}
+
 template<class type>
 #ifdef __EMSCRIPTEN__
 concept thread_type = std::is_same_v<type, std::thread>;
@@ -86,7 +92,7 @@ inline std::string getThreadName(const pthread_t &handle) {
     }
     char threadName[THREAD_MAX_NAME_LENGTH];
     if (int rc = pthread_getname_np(handle, threadName, THREAD_MAX_NAME_LENGTH); rc != 0) {
-        throw std::system_error(rc, thread_exception(), "getThreadName(thread_type)");
+        throw std::system_error(rc, thread_error_category(), "getThreadName(thread_type)");
     }
     return std::string{ threadName, std::min(strlen(threadName), THREAD_MAX_NAME_LENGTH) };
 }
@@ -114,7 +120,7 @@ inline std::string getThreadName(thread_type auto &...thread) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), "getThreadName(thread_type)");
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), "getThreadName(thread_type)");
     }
     return detail::getThreadName(handle);
 #else
@@ -126,7 +132,7 @@ inline void setProcessName(const std::string_view &processName, int pid = detail
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     std::ofstream out(std::format("/proc/{}/comm", pid), std::ios::out);
     if (!out.is_open()) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessName({},{})", processName, pid));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("setProcessName({},{})", processName, pid));
     }
     out << std::string{ processName.cbegin(), std::min(15LU, processName.size()) };
     out.close();
@@ -137,11 +143,11 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
     const std::string name{ threadName.substr(0, THREAD_MAX_NAME_LENGTH - 1) }; // zero-terminated, longer names are refused by the OS
     if (int rc = pthread_setname_np(handle, name.c_str()); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
+        throw std::system_error(rc, thread_error_category(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
 }
@@ -178,11 +184,11 @@ inline constexpr cpu_set_t getAffinityMask(const T &threadMap) {
 inline std::vector<bool> getThreadAffinity(thread_type auto &...thread) {
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getThreadAffinity(thread_type)"));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("getThreadAffinity(thread_type)"));
     }
     cpu_set_t cpuSet;
     if (int rc = pthread_getaffinity_np(handle, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getThreadAffinity({})", detail::getThreadName(handle)));
+        throw std::system_error(rc, thread_error_category(), std::format("getThreadAffinity({})", detail::getThreadName(handle)));
     }
     return detail::getAffinityMask(cpuSet);
 }
@@ -198,11 +204,11 @@ template<class T>
 inline constexpr void setThreadAffinity(const T &threadMap, thread_type auto &...thread) {
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, thread_type)", threadMap.size(), opencmw::join(threadMap, ", ")));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, thread_type)", threadMap.size(), opencmw::join(threadMap, ", ")));
     }
     cpu_set_t cpuSet = detail::getAffinityMask(threadMap);
     if (int rc = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), detail::getThreadName(handle)));
+        throw std::system_error(rc, thread_error_category(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), detail::getThreadName(handle)));
     }
 }
 #else
@@ -214,11 +220,11 @@ inline constexpr bool setThreadAffinity(const T &threadMap, thread_type auto &..
 inline std::vector<bool> getProcessAffinity(const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getProcessAffinity({}) -- invalid pid", pid));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("getProcessAffinity({}) -- invalid pid", pid));
     }
     cpu_set_t cpuSet;
     if (int rc = sched_getaffinity(pid, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getProcessAffinity(std::bitset<{{}}> = {{}}, thread_type)")); // todo: fix format string
+        throw std::system_error(rc, thread_error_category(), std::format("getProcessAffinity(std::bitset<{{}}> = {{}}, thread_type)")); // todo: fix format string
     }
     return detail::getAffinityMask(cpuSet);
 #else
@@ -231,11 +237,11 @@ template<class T>
 inline constexpr bool setProcessAffinity(const T &threadMap, const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
     }
     cpu_set_t cpuSet = detail::getAffinityMask(threadMap);
     if (int rc = sched_setaffinity(pid, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
+        throw std::system_error(rc, thread_error_category(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
     }
 
     return true;
@@ -272,12 +278,12 @@ inline Policy getEnumPolicy(const int policy) {
 inline struct SchedulingParameter getProcessSchedulingParameter(const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getProcessSchedulingParameter({}) -- invalid pid", pid));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("getProcessSchedulingParameter({}) -- invalid pid", pid));
     }
     struct sched_param param;
     const int          policy = sched_getscheduler(pid);
     if (int rc = sched_getparam(pid, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getProcessSchedulingParameter({}) - sched_getparam error", pid));
+        throw std::system_error(rc, thread_error_category(), std::format("getProcessSchedulingParameter({}) - sched_getparam error", pid));
     }
     return SchedulingParameter{ .policy = detail::getEnumPolicy(policy), .priority = param.sched_priority };
 #else
@@ -288,18 +294,18 @@ inline struct SchedulingParameter getProcessSchedulingParameter(const int pid =
 inline void setProcessSchedulingParameter(Policy scheduler, int priority, const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));
     }
     const int minPriority = sched_get_priority_min(scheduler);
     const int maxPriority = sched_get_priority_max(scheduler);
     if (priority < minPriority || priority > maxPriority) {
-        throw std::system_error(THREAD_VALUE_RANGE, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, pid, minPriority, maxPriority));
+        throw std::system_error(THREAD_VALUE_RANGE, thread_error_category(), std::format("setProcessSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, pid, minPriority, maxPriority));
     }
     struct sched_param param {
         .sched_priority = priority
     };
     if (int rc = sched_setscheduler(pid, scheduler, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) - sched_setscheduler return code: {}", static_cast<int>(scheduler), priority, pid, rc));
+        throw std::system_error(rc, thread_error_category(), std::format("setProcessSchedulingParameter({}, {}, {}) - sched_setscheduler return code: {}", static_cast<int>(scheduler), priority, pid, rc));
     }
 #endif
 }
@@ -308,12 +314,12 @@ inline struct SchedulingParameter getThreadSchedulingParameter(thread_type auto
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getThreadSchedulingParameter(thread_type) -- invalid thread"));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("getThreadSchedulingParameter(thread_type) -- invalid thread"));
     }
     struct sched_param param;
     int                policy;
     if (int rc = pthread_getschedparam(handle, &policy, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getThreadSchedulingParameter({}) - sched_getparam error", detail::getThreadName(handle)));
+        throw std::system_error(rc, thread_error_category(), std::format("getThreadSchedulingParameter({}) - sched_getparam error", detail::getThreadName(handle)));
     }
     return { .policy = detail::getEnumPolicy(policy), .priority = param.sched_priority };
 #else
@@ -325,18 +331,18 @@ inline void setThreadSchedulingParameter(Policy scheduler, int priority, thread_
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, thread_type) -- invalid thread", static_cast<int>(scheduler), priority));
+        throw std::system_error(THREAD_UNINITIALISED, thread_error_category(), std::format("setThreadSchedulingParameter({}, {}, thread_type) -- invalid thread", static_cast<int>(scheduler), priority));
     }
     const int minPriority = sched_get_priority_min(scheduler);
     const int maxPriority = sched_get_priority_max(scheduler);
     if (priority < minPriority || priority > maxPriority) {
-        throw std::system_error(THREAD_VALUE_RANGE, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, detail::getThreadName(handle), minPriority, maxPriority));
+        throw std::system_error(THREAD_VALUE_RANGE, thread_error_category(), std::format("setThreadSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, detail::getThreadName(handle), minPriority, maxPriority));
     }
     struct sched_param param {
         .sched_priority = priority
     };
     if (int rc = pthread_setschedparam(handle, scheduler, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, {}) - pthread_setschedparam return code: {}", static_cast<int>(scheduler), priority, detail::getThreadName(handle), rc));
+        throw std::system_error(rc, thread_error_category(), std::format("setThreadSchedulingParameter({}, {}, {}) - pthread_setschedparam return code: {}", static_cast<int>(scheduler), priority, detail::getThreadName(handle), rc));
     }
 #endif
 }
-- 
2.43.0


From 1f4993f4c5e80c22477d908615adf01fa7fce035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 015/126] fix: TimingCtx comparisons used stale values of the
 other operand after its selector had been changed

---
 src/core/include/TimingCtx.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 425fe40..60a5938 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -57,7 +57,7 @@ public:
     [[nodiscard]] int32_t gid() const { parse(); return _gid; }
 
     // these are not commutative, and must not be confused with operator==
-    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
+    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); other.parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
 
     [[nodiscard]] bool matchesWithBpcts(const TimingCtx &other) const {
         auto match = [](units::isq::Time auto lhs, units::isq::Time auto rhs) { return rhs == 0 || lhs == rhs; };
@@ -68,10 +68,12 @@ public:
 
     [[nodiscard]] auto operator<=>(const TimingCtx &other) const {
         parse();
+        other.parse();
         return std::tie(_cid, _sid, _pid, _gid, bpcts.value()) <=> std::tie(other._cid, other._sid, other._pid, other._gid, other.bpcts.value());
     }
     [[nodiscard]] bool operator==(const TimingCtx &other) const {
         parse();
+        other.parse();
         return bpcts == other.bpcts && _cid == other._cid && _sid == other._sid && _pid == other._pid && _gid == other._gid;
     }
 
-- 
2.43.0


From a0f269ac86d6f32407020b0fac2fe39bd5c06ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 016/126] fix: TimingCtx accepted selectors with out-of-range
 or partially numeric values, and an invalid prefix on second use

---
 src/core/include/TimingCtx.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 60a5938..efe9b78 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -127,6 +127,7 @@ public:
         }
 
         if (!upperCaseSelector.starts_with(SELECTOR_PREFIX)) {
+            _hash = 0;
             throw std::invalid_argument(std::format("Invalid tag '{}'", selector.value()));
         }
         auto upperCaseSelectorView = std::string_view{ upperCaseSelector.data() + SELECTOR_PREFIX.length(), upperCaseSelector.size() - SELECTOR_PREFIX.length() };
@@ -159,7 +160,7 @@ public:
 
             if (WILDCARD != valueString) {
                 int32_t intValue = 0;
-                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec == std::errc::invalid_argument) {
+                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec != std::errc{} || result.ptr != valueString.data() + valueString.size()) {
                     _hash = 0;
                     throw std::invalid_argument(std::format("Value: '{}' in '{}' is not a valid integer", valueString, tag));
                 }
-- 
2.43.0


From b50d269563c3fd39c56cf18b5d8c83214d113049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 017/126] fix: TimingCtx::toString() and hash() terminated the
 process for an invalid selector

---
 src/core/include/TimingCtx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index efe9b78..6a36802 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -78,7 +78,7 @@ public:
     }
 
     template<bool forceParse = true>
-    [[nodiscard]] std::string toString() const noexcept(forceParse) {
+    [[nodiscard]] std::string toString() const noexcept(!forceParse) {
         if constexpr (forceParse) {
             parse();
         }
@@ -99,7 +99,7 @@ public:
         return std::format("{}{}", SELECTOR_PREFIX, opencmw::join(segments, ":"));
     }
 
-    [[nodiscard]] std::size_t hash() const noexcept {
+    [[nodiscard]] std::size_t hash() const {
         parse();
         std::size_t seed = 0;
         detail::hash_combine(seed, _cid);
@@ -217,7 +217,7 @@ ENABLE_REFLECTION_FOR(opencmw::TimingCtx, selector, bpcts);
 namespace std {
 template<>
 struct hash<opencmw::TimingCtx> {
-    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const noexcept {
+    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const {
         return ctx.hash();
     }
 };
-- 
2.43.0


From 2689cc90d7d2d9ee995d9b08d60cd39b42724210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 018/126] fix: Topic::toZmqTopic did not encode parameter
 names, so different topics shared one subscription string

---
 src/core/include/Topic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/Topic.hpp b/src/core/include/Topic.hpp
index 3fc228f..55cbae6 100644
--- a/src/core/include/Topic.hpp
+++ b/src/core/include/Topic.hpp
@@ -119,7 +119,7 @@ public:
             if (!isFirst) {
                 zmqTopic += "&"s;
             }
-            zmqTopic += key;
+            zmqTopic += opencmw::URI<>::encode(key);
             if (value) {
                 zmqTopic += "="s + opencmw::URI<>::encode(*value);
             }
-- 
2.43.0


From 08eb30b53a4a8e738b39d73f4f0a950c8b347551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 019/126] fix: Topic lost the parameters of a one-letter
 service given without leading slash

---
 src/core/include/Topic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/Topic.hpp b/src/core/include/Topic.hpp
index 55cbae6..50ff31c 100644
--- a/src/core/include/Topic.hpp
+++ b/src/core/include/Topic.hpp
@@ -171,11 +171,11 @@ private:
     Topic(std::string_view serviceOrServiceAndQuery, Params params)
         : _service(parseService(serviceOrServiceAndQuery))
         , _params(std::move(params)) {
-        if (serviceOrServiceAndQuery.find("?") != std::string::npos) {
+        if (const auto queryPos = serviceOrServiceAndQuery.find("?"); queryPos != std::string::npos) {
             if (!_params.empty()) {
                 throw std::invalid_argument(std::format("Parameters are not empty ({}), and there are more in the service string ({})", _params, serviceOrServiceAndQuery));
             }
-            const auto  parsed   = opencmw::URI<RELAXED>(std::string(serviceOrServiceAndQuery));
+            const auto  parsed   = opencmw::URI<RELAXED>(std::string(serviceOrServiceAndQuery.substr(queryPos)));
             const auto &queryMap = parsed.queryParamMap();
             _params.insert(queryMap.begin(), queryMap.end());
         }
-- 
2.43.0


From e17d5f5e62adbc376cd6175c1ceae5848b34de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 020/126] fix: NumberFilter treated out-of-range numbers as
 zero and matched them

---
 src/core/include/Filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/Filters.hpp b/src/core/include/Filters.hpp
index f407d8c..e963b3a 100644
--- a/src/core/include/Filters.hpp
+++ b/src/core/include/Filters.hpp
@@ -45,11 +45,11 @@ class NumberFilter : public AbstractFilter {
 public:
     bool operator()(std::string_view notified, std::string_view subscribed) const override {
         T          subscribedNumber = {};
-        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc != std::errc{}) {
             return false;
         }
         T          notifiedNumber = {};
-        if (const auto rc = parseNumber(notified, notifiedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(notified, notifiedNumber); rc != std::errc{}) {
             return false;
         }
 
-- 
2.43.0


From b6ca6e36491c98158b133342ea3ad8b52034a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 021/126] fix: MIME::getType returned the last instead of the
 first matching type when evaluated at compile time

---
 src/core/include/MIME.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/MIME.hpp b/src/core/include/MIME.hpp
index 20fea23..0199670 100644
--- a/src/core/include/MIME.hpp
+++ b/src/core/include/MIME.hpp
@@ -162,7 +162,7 @@ constexpr const MimeType &getType(const std::string_view &mimeType) noexcept {
         constexpr auto lowerCaseCompare = [](const char ch1, const char ch2) constexpr noexcept -> bool { return detail::toLower(ch1) == detail::toLower(ch2); };
         detail::static_for<std::size_t, 0, ALL.size()>([&](auto i) {
             constexpr auto type = std::get<i>(ALL);
-            if (std::search(mimeType.begin(), mimeType.end(), type.typeName().begin(), type.typeName().end(), lowerCaseCompare) != mimeType.end()) {
+            if (std::search(mimeType.begin(), mimeType.end(), type.typeName().begin(), type.typeName().end(), lowerCaseCompare) != mimeType.end() && index == SIZE_MAX) { // first match
                 index = i;
             }
         });
-- 
2.43.0


From 9e179728ee67292da57823947c0f43af2b9a1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:31 +0000
Subject: [PATCH 022/126] fix: assigning or constructing an Annotated field
 from a non-const lvalue moved from (emptied) the source

---
 src/core/include/opencmw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 4c2d0a9..3bbb4d7 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -393,7 +393,7 @@ struct Annotated<T, Q, description, modifier, groups...> : public T { // inherit
 
     template<typename U>
     requires (std::is_assignable_v<T, U>)
-    Annotated(U&& u) : T(std::move(u)) {}
+    Annotated(U&& u) : T(std::forward<U>(u)) {}
 
     [[nodiscard]] constexpr std::string_view getUnit() const noexcept { return unitStr.c_str(); }
     [[nodiscard]] constexpr std::string_view getQuantity() const noexcept { return quantityStr.c_str(); }
-- 
2.43.0


From 7677ba0097b917aef02266444193b948857afb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 023/126] fix: a moved-from IoBuffer kept its size and capacity
 without a buffer, so that using it again crashed

---
 src/serialiser/include/IoBuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 305341b..ec9d68f 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -269,9 +269,9 @@ public:
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
         : _allocator(other._allocator.resource())
         , _buffer(std::exchange(other._buffer, nullptr))
-        , _position(other._position)
-        , _size(other._size)
-        , _capacity(other._capacity) {}
+        , _position(std::exchange(other._position, 0LU))
+        , _size(std::exchange(other._size, 0LU))
+        , _capacity(std::exchange(other._capacity, 0LU)) {}
 
     constexpr ~IoBuffer() {
         freeInternalBuffer();
-- 
2.43.0


From 31c55814851391ecc048625d2726bac2f0a7f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 024/126] fix: IoBuffer assignment and swap left the allocator
 behind and released the buffer with the wrong one

---
 src/serialiser/include/IoBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index ec9d68f..2c427df 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -278,6 +278,10 @@ public:
     }
 
     constexpr void swap(IoBuffer &other) {
+        // N.B. the allocator must follow its buffer (polymorphic_allocator is not assignable)
+        const auto resource = _allocator.resource();
+        std::construct_at(&_allocator, other._allocator.resource());
+        std::construct_at(&other._allocator, resource);
         std::swap(_position, other._position);
         std::swap(_size, other._size);
         std::swap(_capacity, other._capacity);
-- 
2.43.0


From 790a0cd01ea45a0f38165d9ab0649298220dfdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 025/126] fix: IoBuffer::at returned references reaching beyond
 the end of the buffer

---
 src/serialiser/include/IoBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 2c427df..e233301 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -328,7 +328,7 @@ public:
     template<typename R, bool checkRange = true>
     OPENCMW_FORCEINLINE constexpr R &at(const size_t index) noexcept(!checkRange) {
         if constexpr (checkRange) {
-            if (index >= _size) {
+            if (index >= _size || sizeof(R) > _size - index) {
                 throw std::out_of_range(std::format("requested index {} is out-of-range [0,{}]", index, _size));
             }
         }
-- 
2.43.0


From 808a6be9f719a382fbbbfc903af2794ea9de7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:21 +0000
Subject: [PATCH 026/126] fix: IoBuffer getters read beyond the end of the
 buffer for truncated or malformed data

---
 src/serialiser/include/IoBuffer.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index e233301..9292892 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -204,8 +204,15 @@ private:
         }
     }
 
+    [[nodiscard]] constexpr std::size_t remaining() const noexcept { return _position < _size ? _size - _position : 0LU; }
+
     std::string_view extractStringView() const noexcept {
-        const auto strLength = static_cast<std::size_t>(swapEndian(get<int32_t>()) - 1);
+        const auto wireLength = swapEndian(get<int32_t>()); // N.B. includes the zero-terminating byte
+        if (wireLength <= 0 || static_cast<std::size_t>(wireLength) > remaining()) { // malformed length
+            _position = _size;
+            return {};
+        }
+        const auto strLength = static_cast<std::size_t>(wireLength - 1);
         auto       start     = reinterpret_cast<const char *>(_buffer + _position);
         _position += strLength + 1LU; // +1 for the zero-terminating byte
         return { start, strLength };
@@ -420,6 +427,10 @@ public:
     template<typename R, typename RawType = std::remove_cvref_t<R>>
     [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get() const noexcept {
         if constexpr (Number<R>) {
+            if (remaining() < sizeof(R)) [[unlikely]] { // malformed/truncated buffer
+                _position = _size;
+                return R{};
+            }
             const std::size_t localPosition = _position;
             _position += sizeof(R);
             R value;
@@ -437,7 +448,9 @@ public:
     template<ArrayOrVector Container, bool checkRange = false>
     OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const noexcept(!checkRange) {
         using R                        = Container::value_type;
-        const auto        arraySize    = std::min(static_cast<std::size_t>(get<int32_t>()), _size - _position);
+        constexpr bool    isBlockCopy  = std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>;
+        const auto        wireSize     = static_cast<std::size_t>(std::max(get<int32_t>(), 0));
+        const auto        arraySize    = std::min(wireSize, isBlockCopy ? remaining() / sizeof(R) : remaining());
         const std::size_t minArraySize = std::min(arraySize, requestedSize);
 
         if constexpr (opencmw::is_vector<Container>) {
@@ -451,7 +464,7 @@ public:
             assert(std::tuple_size_v<Container> >= minArraySize && "std::array<SupportedType, size> wire-format size does not match design");
         }
 
-        if constexpr (std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>) {
+        if constexpr (isBlockCopy) {
             std::memcpy(input.data(), _buffer + _position, minArraySize * sizeof(R));
             _position += minArraySize * sizeof(R);
         } else {
-- 
2.43.0


From bcb8da997b87e0865284f55464d6139fc33db8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:27 +0000
Subject: [PATCH 027/126] fix: reading a longer array into a std::array
 overflowed it when assertions are disabled

---
 src/serialiser/include/IoBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 9292892..6aa6d5b 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -451,7 +451,7 @@ public:
         constexpr bool    isBlockCopy  = std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>;
         const auto        wireSize     = static_cast<std::size_t>(std::max(get<int32_t>(), 0));
         const auto        arraySize    = std::min(wireSize, isBlockCopy ? remaining() / sizeof(R) : remaining());
-        const std::size_t minArraySize = std::min(arraySize, requestedSize);
+        std::size_t       minArraySize = std::min(arraySize, requestedSize);
 
         if constexpr (opencmw::is_vector<Container>) {
             input.resize(minArraySize);
@@ -461,7 +461,7 @@ public:
                     throw std::out_of_range(std::format("std::array<SupportedType, size = {}> wire-format size does not match design {}", std::tuple_size_v<Container>, minArraySize));
                 }
             }
-            assert(std::tuple_size_v<Container> >= minArraySize && "std::array<SupportedType, size> wire-format size does not match design");
+            minArraySize = std::min(minArraySize, std::tuple_size_v<Container>); // N.B. surplus elements are left unread
         }
 
         if constexpr (isBlockCopy) {
-- 
2.43.0


From 8169b6f1aff12e96a2211e3f18789dcbfd3e9d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:09 +0000
Subject: [PATCH 028/126] fix: MultiArray::indices returned wrong indices for
 arrays with offsets or a custom layout

---
 src/serialiser/include/MultiArray.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index 7984381..a6fb6cf 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -1,8 +1,11 @@
 #ifndef OPENCMW_CPP_MULTI_ARRAY_HPP
 #define OPENCMW_CPP_MULTI_ARRAY_HPP
 
+#include <algorithm>
 #include <array>
+#include <functional>
 #include <iostream>
+#include <utility>
 #include <vector>
 
 #include <format>
@@ -156,10 +159,15 @@ public:
     [[nodiscard]] constexpr std::array<size_t_, n_dims> indices(const size_t_ index) const noexcept {
         std::array<size_t_, n_dims> indices{};
         size_t_                     index_ = index;
+        std::array<size_t_, n_dims> order{}; // dimensions by descending stride (N.B. custom layouts need not to be row-major)
         for (size_t_ i = 0; i < n_dims; i++) {
-            index_ -= offsets_[i];
+            order[i] = i;
+        }
+        std::ranges::sort(order, std::greater{}, [this](const size_t_ i) { return std::pair(strides_[i], offsets_[i] + dims_[i]); });
+        for (const auto i : order) {
             indices[i] = index_ / strides_[i];
             index_ -= indices[i] * strides_[i];
+            indices[i] -= offsets_[i];
         }
         return indices;
     }
-- 
2.43.0


From a16f3b5464d3dc2692f3e1a8f5077c7e0c5f729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:09 +0000
Subject: [PATCH 029/126] fix: adding to a MultiArray with a custom layout
 wrote beyond the end of the result

---
 src/serialiser/include/MultiArray.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index a6fb6cf..0c8a3a0 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -250,18 +250,14 @@ public:
 
     MultiArray<value_type, n_dims> operator+(const MultiArray<value_type, n_dims> &operand) const {
         // todo: verify dimension match. Allow broadcasting (adding a column vector to each row or similar)?
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
-        for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
-            result[i] = operator[](i) + operand[i];
-        }
+        MultiArray result = *this; // N.B. keeps also strides, offsets and the size of the raw data
+        result += operand;
         return result;
     }
     template<AnyNumber R>
     MultiArray operator+(const R &operand) const {
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
-        for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
-            result[i] = elements_[i] + operand;
-        }
+        MultiArray result = *this; // N.B. keeps also strides, offsets and the size of the raw data
+        result += operand;
         return result;
     }
 
-- 
2.43.0


From 52213fdd1257e3e406dbd94812689c09a3dffa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 030/126] fix: reading a std::set of strings or floating-point
 numbers from YaS data did not compile with clang

---
 src/serialiser/include/IoSerialiserYaS.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 3896885..ef78fad 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -157,7 +157,7 @@ struct IoSerialiser<YaS, std::set<V>> {
     }
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) noexcept {
         auto           size = buffer.getArray<int32_t, 1>();
-        std::vector<V> data{ size[0] };
+        std::vector<V> data;
         buffer.getArray(data, static_cast<size_t>(size[0]));
         value.clear();
         std::copy(data.begin(), data.end(), std::inserter(value, value.begin()));
-- 
2.43.0


From 80626ed235c2ba1d6ac7b6749a821e925d5e53b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 031/126] fix: reading a YaS map with non-primitive values kept
 the previous entries of the target map

---
 src/serialiser/include/IoSerialiserYaS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index ef78fad..e4f6cc6 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -252,6 +252,7 @@ struct IoSerialiser<YaS, T> {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
             auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
                 FieldDescriptionShort subfield{
                     .headerStart       = buffer.position(),
-- 
2.43.0


From 3b4f94b409e065bd8f069b6238c371b6fecf8904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 032/126] fix: YaS map reader allocated memory for and accessed
 keys beyond the entries that are in the buffer

---
 src/serialiser/include/IoSerialiserYaS.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index e4f6cc6..63adee8 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -214,6 +214,9 @@ struct IoSerialiser<YaS, T> {
         using V                  = typename T::mapped_type;
         const auto     nElements = static_cast<uint32_t>(buffer.get<int32_t>());
 
+        if (nElements > buffer.size() - buffer.position()) { // N.B. each entry occupies at least one byte
+            throw ProtocolException("illegal number of map elements {} for field {}", nElements, field.fieldName);
+        }
         const auto     keyType   = buffer.get<uint8_t>();
         std::vector<K> keys;
         keys.reserve(nElements);
@@ -252,6 +255,9 @@ struct IoSerialiser<YaS, T> {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
             auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            if (nElements != value_elements) {
+                throw ProtocolException("value array length mismatch for field {} - required {} vs. have {}", field.fieldName, nElements, value_elements);
+            }
             value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
                 FieldDescriptionShort subfield{
-- 
2.43.0


From 9865d9b486395b1068a114997414c5bf2012aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:28 +0000
Subject: [PATCH 033/126] fix: one-dimensional MultiArray fields could not be
 serialised with CmwLight (did not compile)

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 0809df6..fddca36 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -43,15 +43,15 @@ void skipMultiArray(IoBuffer &buffer) {
 }
 
 template<typename T>
-int getTypeId() {
+constexpr int getTypeId() {
     return IoSerialiser<CmwLight, T>::getDataTypeId();
 }
 template<typename T>
-int getTypeIdVector() {
+constexpr int getTypeIdVector() {
     return IoSerialiser<CmwLight, std::vector<T>>::getDataTypeId();
 }
 template<typename T, size_t N>
-int getTypeIdMultiArray() {
+constexpr int getTypeIdMultiArray() {
     return IoSerialiser<CmwLight, MultiArray<T, N>>::getDataTypeId();
 }
 
-- 
2.43.0


From 84025ef8b73a0e96d3fb30f8463df92c3eb41d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:28 +0000
Subject: [PATCH 034/126] fix: fields following a map were lost when reading
 CmwLight data

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index fddca36..073aa9e 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -448,8 +448,9 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &parent, std::map<std::string, ValueType> &value) {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
-        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, parent, START_MARKER_INST);
-        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, parent.subfields);
+        auto             map   = parent; // N.B. the parent's number of remaining sub-fields must not be modified
+        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, map, START_MARKER_INST);
+        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, map.subfields);
         while (buffer.position() < buffer.size()) {
             DeserialiserInfo info;
             auto previousSubFields = field.subfields;
-- 
2.43.0


From baedb950b4b9307a87d74c90e2c3a97d2661b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:28 +0000
Subject: [PATCH 035/126] fix: reading a CmwLight map kept the previous entries
 of the target map

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 073aa9e..40bef30 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -448,6 +448,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &parent, std::map<std::string, ValueType> &value) {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
+        value.clear();
         auto             map   = parent; // N.B. the parent's number of remaining sub-fields must not be modified
         IoSerialiser<protocol, START_MARKER>::deserialise(buffer, map, START_MARKER_INST);
         auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, map.subfields);
-- 
2.43.0


From 396874371a0780cc6c80a5e0928b932b9768adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:59 +0000
Subject: [PATCH 036/126] fix: map keys containing a zero byte were truncated
 when written as CmwLight

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 40bef30..a713483 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -440,6 +440,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
                 return;
             } else { // field is a (possibly annotated) primitive type
                 FieldDescription auto field = detail::newFieldHeader<CmwLight, true>(buffer, key.c_str(), parentField.hierarchyDepth + 1, val, 0);
+                field.fieldName             = key; // N.B. keys may contain any character
                 FieldHeaderWriter<CmwLight>::put<true>(buffer, field, val);
             }
         }
-- 
2.43.0


From 45dbefced5f2b3e589fb7bb25a637640c54e4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 037/126] fix: an empty map was written as invalid JSON

---
 src/serialiser/include/IoSerialiserJson.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index a99220b..e35d7d8 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -596,7 +596,9 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
             memberField.fieldName = entry.first;
             FieldHeaderWriter<Json>::put<IoBuffer::WITHOUT>(buffer, memberField, entry.second);
         }
-        buffer.resize(buffer.size() - 2); // remove trailing comma
+        if (!value.empty()) {
+            buffer.resize(buffer.size() - 2); // remove trailing comma
+        }
         buffer.put<IoBuffer::MetaInfo::WITHOUT>("\n}\n"sv);
     }
     static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
-- 
2.43.0


From f081e293e3e67bb85646dccfa3ce8b06befbcb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 038/126] fix: the values of a map were lost when reading JSON

---
 src/serialiser/include/IoSerialiserJson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index e35d7d8..449efb2 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -606,7 +606,7 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
         DeserialiserInfo     info{};
         FieldDescriptionLong fieldHeader{ .headerStart = 0, .dataStartPosition = 0, .dataEndPosition = 0, .subfields = 0, .fieldName = ""sv, .unit = ""sv, .description = ""sv, .modifier = UNKNOWN, .intDataType = IoSerialiser<Json, V>::getDataTypeId(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1U) };
         for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
-            auto fieldValue = value[std::string(fieldHeader.fieldName)];
+            auto &fieldValue = value[std::string(fieldHeader.fieldName)];
             IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, fieldValue);
         }
     }
-- 
2.43.0


From 152b05e0e58787a6deafc8d791694b222464d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 039/126] fix: reading a map from JSON kept the previous
 entries of the target map

---
 src/serialiser/include/IoSerialiserJson.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 449efb2..af760ef 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -605,6 +605,7 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
         using namespace std::string_view_literals;
         DeserialiserInfo     info{};
         FieldDescriptionLong fieldHeader{ .headerStart = 0, .dataStartPosition = 0, .dataEndPosition = 0, .subfields = 0, .fieldName = ""sv, .unit = ""sv, .description = ""sv, .modifier = UNKNOWN, .intDataType = IoSerialiser<Json, V>::getDataTypeId(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1U) };
+        value.clear();
         for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
             auto &fieldValue = value[std::string(fieldHeader.fieldName)];
             IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, fieldValue);
-- 
2.43.0


From 04e0565cfe4b345fa459f232ad1f6b7fb28278ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 040/126] fix: maps with an empty key could be written as but
 not read from JSON

---
 src/serialiser/include/IoSerialiserJson.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index af760ef..a2fc85a 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -329,9 +329,6 @@ struct FieldHeaderReader<Json> {
         }
         if (buffer.at<char8_t>(buffer.position()) == '"') { // string
             result.fieldName = json::readKey(buffer);
-            if (result.fieldName.size() == 0) {
-                detail::handleDeserialisationError<protocolCheckVariant>(info, "Cannot read field name for field at buffer position {}", buffer.position());
-            }
             json::consumeWhitespace(buffer);
             if (buffer.get<int8_t>() != ':') {
                 detail::handleDeserialisationError<protocolCheckVariant>(info, "json malformed, no colon between key/value at buffer position {}", buffer.position());
-- 
2.43.0


From ce4eaf6a8244fb08b1606cee97fdbe68374fa3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 041/126] fix: JSON literals true, false and null were not
 recognised at the end of the buffer

---
 src/serialiser/include/IoSerialiserJson.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index a2fc85a..19feb60 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -220,11 +220,11 @@ inline void skipField(IoBuffer &buffer) {
         skipArray(buffer);
     } else if (firstChar == '"') {
         std::ignore = readString(buffer);
-    } else if (buffer.size() - buffer.position() > 5 && buffer.asString(buffer.position(), 5) == "false") {
+    } else if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false") {
         buffer.skip<false>(5);
-    } else if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "true") {
+    } else if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "true") {
         buffer.skip<false>(4);
-    } else if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "null") {
+    } else if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "null") {
         buffer.skip<false>(4);
     } else { // skip number
         skipNumber(buffer);
@@ -359,12 +359,12 @@ struct IoSerialiser<Json, bool> {
     }
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, bool &value) {
         using namespace std::string_view_literals;
-        if (buffer.size() - buffer.position() > 5 && buffer.asString(buffer.position(), 5) == "false"sv) {
+        if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false"sv) {
             buffer.skip<false>(5);
             value = false;
             return;
         }
-        if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "true"sv) {
+        if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "true"sv) {
             buffer.skip<false>(4);
             value = false;
             value = true;
-- 
2.43.0


From ba581ad838e89faecaa73a09db8ed4ce09240d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 042/126] fix: the JSON number parser read beyond the end of
 the buffer and cut numbers after 30 characters

---
 src/serialiser/include/IoSerialiserJson.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 19feb60..8e43a97 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -396,8 +396,7 @@ struct IoSerialiser<Json, T> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const auto start = buffer.position();
         const auto data  = reinterpret_cast<const char *>(buffer.data());
-        // N.B. assumes that any reasonable number representation has a maximum of 30 characters
-        const auto stop = start + 30;
+        const auto stop  = buffer.size();
 
         //        auto     stop  = 0;
         //        for (size_t i = start; i < buffer.size(); i++) {
-- 
2.43.0


From 9379bdc10db6833232db92c4b857bf97d8d74324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 043/126] fix: an unterminated JSON string was read beyond the
 end of the buffer

---
 src/serialiser/include/IoSerialiserJson.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 8e43a97..d25ddb5 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -76,9 +76,15 @@ inline std::string readString(IoBuffer &buffer) {
 
     std::string result;
     result.reserve(20);
-    for (auto currentChar = buffer.get<uint8_t>(); currentChar != '"'; currentChar = buffer.get<uint8_t>()) {
+    const auto nextChar = [&buffer] {
+        if (buffer.position() >= buffer.size()) {
+            throw ProtocolException("readString(IoBuffer) error: missing closing quote at position {} of {}", buffer.position(), buffer.size());
+        }
+        return buffer.get<uint8_t>();
+    };
+    for (auto currentChar = nextChar(); currentChar != '"'; currentChar = nextChar()) {
         if (buffer.at<uint8_t>(buffer.position() - 1) == '\\') { // escape sequence detected
-            switch (buffer.get<uint8_t>()) {
+            switch (nextChar()) {
             case '"':
             case '\\':
             case '/':
-- 
2.43.0


From 8c5659d9f6f4f9cdf332b101e4206a35e4860b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 044/126] fix: skipping a JSON number read beyond the end of
 the buffer and did not detect a missing value

---
 src/serialiser/include/IoSerialiserJson.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index d25ddb5..ab25c90 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -194,9 +194,13 @@ inline void skipField(IoBuffer &buffer) {
 }
 
  constexpr void skipNumber(IoBuffer &buffer) {
-    while (isNumberChar(buffer.get<uint8_t>())) {
+    const auto start = buffer.position();
+    while (buffer.position() < buffer.size() && isNumberChar(buffer.at<uint8_t>(buffer.position()))) {
+        buffer.skip<false>(1);
+    }
+    if (buffer.position() == start) {
+        throw ProtocolException("json malformed, expected a value at buffer position {}", start);
     }
-    buffer.skip<false>(-1);
 }
 
  constexpr void skipArray(IoBuffer &buffer) {
-- 
2.43.0


From c4f2fb7e57a9c193584c70b9434d799186a0b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 045/126] fix: reading malformed JSON without throwing on
 errors never terminated

---
 src/serialiser/include/IoSerialiserJson.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index ab25c90..132d8fe 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -357,6 +357,11 @@ struct FieldHeaderReader<Json> {
         }
 
         detail::handleDeserialisationError<protocolCheckVariant>(info, "json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(buffer.position()), buffer.position());
+        // cannot be recovered from -> skip the remaining data
+        buffer.set_position(buffer.size());
+        result.intDataType       = IoSerialiser<Json, END_MARKER>::getDataTypeId();
+        result.dataStartPosition = buffer.position();
+        result.dataEndPosition   = std::numeric_limits<size_t>::max();
     }
 };
 
-- 
2.43.0


From 085a2f84802c60fe076f7e45b9b1e8cebf44d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:18 +0000
Subject: [PATCH 046/126] fix: maps of objects could be written as but not read
 from JSON

---
 src/serialiser/include/IoSerialiserJson.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 132d8fe..d12c32c 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -619,6 +619,11 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
         value.clear();
         for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
             auto &fieldValue = value[std::string(fieldHeader.fieldName)];
+            if constexpr (isReflectableClass<V>()) {
+                if (fieldHeader.intDataType == IoSerialiser<Json, START_MARKER>::getDataTypeId()) {
+                    buffer.skip<false>(-1); // reset buffer position for the nested deserialiser to read the start marker again
+                }
+            }
             IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, fieldValue);
         }
     }
-- 
2.43.0


From 8a54abdfc1715bac79a9f169843b935b1f19a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:48 +0000
Subject: [PATCH 047/126] fix: escaped unicode characters in JSON strings were
 read as '_'

---
 src/serialiser/include/IoSerialiserJson.hpp | 39 ++++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index d12c32c..4376d16 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -66,6 +66,25 @@ template<StringLike T>
     buffer.put('"');
 }
 
+inline void appendUtf8(std::string &result, const uint32_t codePoint) {
+    if (codePoint < 0x80U) {
+        result += static_cast<char>(codePoint);
+        return;
+    }
+    if (codePoint < 0x800U) {
+        result += static_cast<char>(0xC0U | (codePoint >> 6U));
+    } else {
+        if (codePoint < 0x10000U) {
+            result += static_cast<char>(0xE0U | (codePoint >> 12U));
+        } else {
+            result += static_cast<char>(0xF0U | (codePoint >> 18U));
+            result += static_cast<char>(0x80U | ((codePoint >> 12U) & 0x3FU));
+        }
+        result += static_cast<char>(0x80U | ((codePoint >> 6U) & 0x3FU));
+    }
+    result += static_cast<char>(0x80U | (codePoint & 0x3FU));
+}
+
 inline std::string readString(IoBuffer &buffer) {
     if (buffer.position() >= buffer.size()) {
         return "";
@@ -106,12 +125,22 @@ inline std::string readString(IoBuffer &buffer) {
                 result += '\t';
                 break;
             case 'u': {
-                char *data = reinterpret_cast<char *>(buffer.data() + buffer.position());
-                if ((buffer.position() + 4) >= buffer.size() || !isHexNumber(data, 4)) {
-                    throw ProtocolException("illegal hex number {} at position {} of {}", buffer.asString(buffer.position(), 4), buffer.position(), buffer.size());
+                const auto readHexNumber = [&buffer] {
+                    const char *data = reinterpret_cast<const char *>(buffer.data() + buffer.position());
+                    if ((buffer.position() + 4) >= buffer.size() || !isHexNumber(data, 4)) {
+                        throw ProtocolException("illegal hex number at position {} of {}", buffer.position(), buffer.size());
+                    }
+                    uint32_t value = 0;
+                    std::from_chars(data, data + 4, value, 16);
+                    buffer.skip<false>(4);
+                    return value;
+                };
+                uint32_t codePoint = readHexNumber();
+                if (codePoint >= 0xD800U && codePoint < 0xDC00U && buffer.position() + 6 < buffer.size() && buffer.at<char>(buffer.position()) == '\\' && buffer.at<char>(buffer.position() + 1) == 'u') { // surrogate pair
+                    buffer.skip<false>(2);
+                    codePoint = 0x10000U + ((codePoint - 0xD800U) << 10U) + ((readHexNumber() - 0xDC00U) & 0x3FFU);
                 }
-                buffer.skip<false>(4); // skip escaped unicode char
-                result += '_';         // todo: implement parsing the actual unicode characters
+                appendUtf8(result, codePoint);
                 break;
             }
             default:
-- 
2.43.0


From c6839aaff14376d3d98e2f090ed115db41eadfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:48 +0000
Subject: [PATCH 048/126] fix: control characters in strings were written as
 invalid JSON

---
 src/serialiser/include/IoSerialiserJson.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 4376d16..21328fa 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -59,6 +59,10 @@ template<StringLike T>
             buffer.put('t');
             break;
         default:
+            if (static_cast<uint8_t>(c) < 0x20U) { // other control characters must not appear literally
+                buffer.put<IoBuffer::MetaInfo::WITHOUT>(std::format("\\u{:04x}", static_cast<uint8_t>(c)));
+                break;
+            }
             buffer.put(c);
             break;
         }
-- 
2.43.0


From f4b9364524714d9ca7f4336da100b16580df9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:16 +0000
Subject: [PATCH 049/126] fix: YaS field headers with a data range outside of
 the buffer or before the header were followed

---
 src/serialiser/include/IoSerialiserYaS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 63adee8..b1814c8 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -394,6 +394,9 @@ struct FieldHeaderReader<YaS> {
         const auto dataStartOffset = static_cast<uint64_t>(buffer.get<int32_t>());
         const auto dataSize        = static_cast<uint64_t>(buffer.get<int32_t>());
         result.fieldName           = buffer.get<std::string_view>(); // full field name
+        if (dataStartOffset < buffer.position() - result.headerStart || dataStartOffset > buffer.size() - result.headerStart || dataSize > buffer.size() - result.headerStart - dataStartOffset) {
+            throw ProtocolException("field {} has an illegal data range: start offset {} and size {} at buffer[{}, size:{}]", result.fieldName, static_cast<int64_t>(dataStartOffset), static_cast<int64_t>(dataSize), result.headerStart, buffer.size());
+        }
         result.dataStartPosition   = result.headerStart + dataStartOffset;
         result.dataEndPosition     = result.headerStart + dataStartOffset + dataSize;
         // the following information is optional
-- 
2.43.0


From c659f7bd9aa44ecffbc224259832f0b575250a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:16 +0000
Subject: [PATCH 050/126] fix: the field names of map and set elements referred
 to destroyed strings

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 3 ++-
 src/serialiser/include/IoSerialiserYaS.hpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index a713483..09af165 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -232,12 +232,13 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
         auto n_elems = buffer.get<int32_t>();
         for (int i = 0; i < n_elems; i++) {
             MemberType            v;
+            const std::string     subfieldName = std::format("{}[{}]", field.fieldName, i);
             FieldDescriptionShort subfield{
                 .headerStart       = buffer.position(),
                 .dataStartPosition = buffer.position(),
                 .dataEndPosition   = 0U,
                 .subfields         = 0,
-                .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                .fieldName         = subfieldName,
                 .intDataType       = IoSerialiser<CmwLight, MemberType>::getDataTypeId(),
                 .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
             };
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index b1814c8..5119bec 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -260,12 +260,13 @@ struct IoSerialiser<YaS, T> {
             }
             value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
+                const std::string     subfieldName = std::format("{}[{}]", field.fieldName, i);
                 FieldDescriptionShort subfield{
                     .headerStart       = buffer.position(),
                     .dataStartPosition = buffer.position(),
                     .dataEndPosition   = 0U,
                     .subfields         = 0,
-                    .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                    .fieldName         = subfieldName,
                     .intDataType       = IoSerialiser<YaS, V>::getDataTypeId(),
                     .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
                 };
-- 
2.43.0


From fbe9e9ab54b05032688d4463cd84b44701195818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:16 +0000
Subject: [PATCH 051/126] fix: multi-arrays with dimensions that do not match
 the received elements were accepted and accessed beyond their end

---
 src/serialiser/include/IoSerialiser.hpp         | 15 +++++++++++++++
 src/serialiser/include/IoSerialiserCmwLight.hpp |  9 +++++++--
 src/serialiser/include/IoSerialiserYaS.hpp      |  9 +++++++--
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 570460f..5e4c96f 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -165,6 +165,21 @@ OPENCMW_FORCEINLINE int32_t findMemberIndex(const std::string_view &fieldName) n
 
 namespace detail {
 
+template<std::size_t nDims>
+[[nodiscard]] constexpr bool isValidArrayShape(const std::array<int32_t, nDims> &dimensions, const std::size_t nElements) noexcept {
+    std::size_t required = 1;
+    for (const auto dim : dimensions) {
+        if (dim < 0) {
+            return false;
+        }
+        required *= static_cast<std::size_t>(dim);
+        if (required > std::numeric_limits<uint32_t>::max()) {
+            return false;
+        }
+    }
+    return required <= nElements;
+}
+
 template<ReflectableClass T>
 constexpr int16_t getNumberOfNonNullSubfields(const T &value) {
     int16_t fields = 0;
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 09af165..1e1aa2c 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -179,8 +179,14 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
+        auto                                  elements = std::remove_cvref_t<decltype(value.elements())>{};
+        buffer.getArray(elements);
+        if (!detail::isValidArrayShape(dimWire, elements.size())) {
+            throw ProtocolException("dimensions of the multi-array field {} do not match its {} elements", field.fieldName, elements.size());
+        }
+        value.elements() = std::move(elements);
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
         }
@@ -192,7 +198,6 @@ struct IoSerialiser<CmwLight, T> {
             value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
             value.offset(i - 1) = 0;
         }
-        buffer.getArray(value.elements());
     }
 };
 
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 5119bec..878ad2c 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -126,8 +126,14 @@ struct IoSerialiser<YaS, T> {
         buffer.put(dims);
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
+        auto                                  elements = std::remove_cvref_t<decltype(value.elements())>{};
+        buffer.getArray(elements);
+        if (!detail::isValidArrayShape(dimWire, elements.size())) {
+            throw ProtocolException("dimensions of the multi-array field {} do not match its {} elements", field.fieldName, elements.size());
+        }
+        value.elements() = std::move(elements);
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<typename T::size_t_>(dimWire[i]);
         }
@@ -139,7 +145,6 @@ struct IoSerialiser<YaS, T> {
             value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
             value.offset(i - 1) = 0;
         }
-        buffer.getArray(value.elements());
     }
 };
 
-- 
2.43.0


From dd088607659eaf679d18d10fc1cbcc836f52addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:16 +0000
Subject: [PATCH 052/126] fix: skipping CmwLight data with a negative or too
 large length moved the read position backwards or overflowed

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 1e1aa2c..1d81dbe 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -17,6 +17,13 @@ namespace cmwlight {
 
 void skipString(IoBuffer &buffer);
 
+inline void skipElements(IoBuffer &buffer, const int32_t nElements, const std::size_t elementSize) {
+    if (nElements < 0 || static_cast<std::size_t>(nElements) > (buffer.size() - buffer.position()) / elementSize) {
+        throw ProtocolException("cannot skip {} elements of size {} at buffer[{}, size:{}]", nElements, elementSize, buffer.position(), buffer.size());
+    }
+    buffer.set_position(buffer.position() + static_cast<std::size_t>(nElements) * elementSize);
+}
+
 template<typename T>
 void skipRawArray(IoBuffer &buffer) {
     if constexpr (is_stringlike<T>) {
@@ -24,7 +31,7 @@ void skipRawArray(IoBuffer &buffer) {
             skipString(buffer);
         }
     } else {
-        buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(T)));
+        skipElements(buffer, buffer.get<int32_t>(), sizeof(T));
     }
 }
 
@@ -38,8 +45,8 @@ inline void skipString(IoBuffer &buffer) { skipRawArray<char>(buffer); }
 
 template<typename T>
 void skipMultiArray(IoBuffer &buffer) {
-    buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(int32_t))); // skip size header
-    skipRawArray<T>(buffer);                                                      // skip elements
+    skipElements(buffer, buffer.get<int32_t>(), sizeof(int32_t)); // skip size header
+    skipRawArray<T>(buffer);                                      // skip elements
 }
 
 template<typename T>
-- 
2.43.0


From 0ac34ffc85482cdec0cb28770e8976bd197ffcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:16 +0000
Subject: [PATCH 053/126] fix: the flags of the received fields were written
 out of bounds if two structs of different size have the same field name

---
 src/serialiser/include/IoSerialiser.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 5e4c96f..a577689 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -289,13 +289,15 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
     using ValueType = std::remove_reference_t<decltype(value)>;
     // initialize bitfield indicating which fields have been set
     if constexpr (check != ProtocolCheck::IGNORE) {
-        if (info.setFields.contains(parent.fieldName)) {
-            std::fill(info.setFields[parent.fieldName].begin(), info.setFields[parent.fieldName].end(), false);
-        } else {
-            info.setFields[parent.fieldName] = std::vector<bool>(refl::reflect<ValueType>().members.size);
-        }
+        info.setFields[parent.fieldName] = std::vector<bool>(refl::reflect<ValueType>().members.size); // N.B. different types may share the same field name
     }
 
+    [[maybe_unused]] const auto markAsSet = [&info, &parent](const int index) {
+        auto &flags = info.setFields[parent.fieldName];
+        flags.resize(refl::reflect<ValueType>().members.size); // N.B. a nested struct may have the same field name
+        flags[static_cast<std::size_t>(index)] = true;
+    };
+
     // read initial field header
     auto field = newFieldHeader<protocol, true>(buffer, "", parent.hierarchyDepth, value, -1);
     FieldHeaderReader<protocol>::template get<check>(buffer, info, field);
@@ -395,7 +397,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 }
                 IoSerialiser<protocol, MemberType>::deserialise(buffer, field, getAnnotatedMember(unwrapPointerCreateIfAbsent(member(value))));
                 if constexpr (check != ProtocolCheck::IGNORE) {
-                    info.setFields[parent.fieldName][static_cast<uint64_t>(fieldIndex)] = true;
+                    markAsSet(fieldIndex);
                 }
             }
         });
@@ -415,7 +417,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     field.hierarchyDepth--;
                     field.subfields = previousSubFields - 1;
                     if constexpr (check != ProtocolCheck::IGNORE) {
-                        info.setFields[parent.fieldName][static_cast<uint64_t>(fieldIndex)] = true;
+                        markAsSet(fieldIndex);
                     }
                 }
             });
-- 
2.43.0


From 268c41deda3924003d5262be9fbd75779912e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 054/126] fix: fields of a different type than expected
 desynchronised the CmwLight and JSON readers

---
 src/serialiser/include/IoSerialiser.hpp       | 32 ++++++++++---------
 .../include/IoSerialiserCmwLight.hpp          |  2 +-
 src/serialiser/include/IoSerialiserJson.hpp   |  5 ++-
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index a577689..3b23787 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -265,6 +265,17 @@ OPENCMW_FORCEINLINE void moveToFieldEndBufferPosition(IoBuffer &buffer, const Fi
     }
 }
 
+template<SerialiserProtocol protocol>
+void skipField(IoBuffer &buffer, const FieldDescriptionLong &field) {
+    if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
+        moveToFieldEndBufferPosition(buffer, field);
+    } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
+        if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
+            IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
+        }
+    }
+}
+
 template<ProtocolCheck check, typename... ErrorArgs>
 neverinline constexpr void handleDeserialisationError(DeserialiserInfo &info, std::format_string<ErrorArgs...> errorFormat, ErrorArgs &&...errorArgs) noexcept(check != ProtocolCheck::ALWAYS) {
     const auto text = std::format(errorFormat, std::forward<ErrorArgs>(errorArgs)...);
@@ -338,16 +349,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 handleDeserialisationError<check>(info, "missing field (type:{}) {}::{} at buffer[{}, size:{}]", field.intDataType, parent.fieldName, field.fieldName, buffer.position(), buffer.size());
                 info.additionalFields.emplace_back(std::make_tuple(std::format("{}::{}", parent.fieldName, field.fieldName), field.intDataType));
             }
-            if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
-                moveToFieldEndBufferPosition(buffer, field);
-            } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
-                if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
-                    if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
-                        buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
-                    }
-                    IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
-                }
-            }
+            skipField<protocol>(buffer, field);
             continue;
         }
 
@@ -357,14 +359,14 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
 
             using MemberType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(member(value))))>;
             if constexpr (!is_writable(member) || is_static(member)) {
-                moveToFieldEndBufferPosition(buffer, field);
+                skipField<protocol>(buffer, field);
                 return;
             } else if constexpr (isReflectableClass<MemberType>()) {
                 field.intDataType = IoSerialiser<protocol, START_MARKER>::getDataTypeId();
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, MemberType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    moveToFieldEndBufferPosition(buffer, field);
+                    skipField<protocol>(buffer, field);
                     if constexpr (check == ProtocolCheck::IGNORE) {
                         return; // don't write -> skip to next
                     }
@@ -381,17 +383,17 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     }
                     if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                     if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                     if (is_readonly(unwrapPointer(member(value)).getModifier())) { // should not set field via external reference
                         handleDeserialisationError<check>(info, "mismatched field access modifier for {}::{} - requested '{}' received '{}'", member.declarator.name, member.name, (unwrapPointer(member(value)).getModifier()), field.modifier);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                 }
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 1d81dbe..3a92b57 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -495,7 +495,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, ValueType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    detail::moveToFieldEndBufferPosition(buffer, field);
+                    detail::skipField<protocol>(buffer, field);
                     detail::handleDeserialisationError<check>(info, "mismatched field type for map field {} - requested type: {} (typeID: {}) got: {}", field.fieldName, typeName<ValueType>, requestedType, field.intDataType);
                     continue;
                 }
diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 21328fa..2dcba2b 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -302,7 +302,10 @@ struct IoSerialiser<Json, START_MARKER> { // catch all template
 template<>
 struct IoSerialiser<Json, OTHER> { // because json does not explicitly provide the datatype, all types except nested classes provide data type OTHER
     static constexpr uint8_t getDataTypeId() { return 0; }
-    constexpr static void    deserialise(IoBuffer &buffer, FieldDescription auto const           &/*field*/, const OTHER &) {
+    constexpr static void    deserialise(IoBuffer &buffer, FieldDescription auto const &field, const OTHER &) {
+        if (field.intDataType == IoSerialiser<Json, START_MARKER>::getDataTypeId()) {
+            buffer.set_position(field.dataStartPosition - 1); // reset buffer position to read the start of the object again
+        }
         json::skipValue(buffer);
     }
 };
-- 
2.43.0


From 682597ca632c9ff1f521fa016c5e230fabdae6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 055/126] fix: unknown nested fields could not be skipped when
 reading CmwLight data

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 3a92b57..333e40a 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -330,6 +330,16 @@ struct IoSerialiser<CmwLight, OTHER> {
         else if (typeId == getTypeIdMultiArray<char       , 2>() || typeId == getTypeIdMultiArray<char       , 3>()) { skipMultiArray<char       >(buffer); }
         else if (typeId == getTypeIdMultiArray<std::string, 2>() || typeId == getTypeIdMultiArray<std::string, 3>()) { skipMultiArray<std::string>(buffer); }
         // nested
+        else if (typeId == IoSerialiser<CmwLight, START_MARKER>::getDataTypeId()) {
+            for (auto i = buffer.get<int32_t>(); i > 0; i--) {
+                skipString(buffer); // field name
+                FieldDescriptionShort subfield{ .headerStart = buffer.position(), .dataStartPosition = buffer.position(), .dataEndPosition = 0U, .subfields = 0, .fieldName = field.fieldName, .intDataType = buffer.get<uint8_t>(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1) };
+                if (subfield.hierarchyDepth == 0) {
+                    throw ProtocolException("field {} is nested too deeply", field.fieldName);
+                }
+                IoSerialiser<CmwLight, OTHER>::deserialise(buffer, subfield, OTHER_INST);
+            }
+        }
         // unsupported
         else { throw ProtocolException(std::format("Skipping data type {} is not supported", typeId)); }
         // clang-format on
-- 
2.43.0


From 0a43c514b2f05bbe0b8804a879ce19359fb66e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 056/126] fix: a value received for a nested struct was read as
 the content of the struct

---
 src/serialiser/include/IoSerialiser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 3b23787..e361b65 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -362,7 +362,12 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 skipField<protocol>(buffer, field);
                 return;
             } else if constexpr (isReflectableClass<MemberType>()) {
-                field.intDataType = IoSerialiser<protocol, START_MARKER>::getDataTypeId();
+                if (field.intDataType != IoSerialiser<protocol, START_MARKER>::getDataTypeId()) { // mismatching data-type
+                    skipField<protocol>(buffer, field);
+                    if constexpr (check != ProtocolCheck::IGNORE) {
+                        handleDeserialisationError<check>(info, "mismatched field type for {}::{} - requested type: {} got: {}", member.declarator.name, member.name, typeName<MemberType>, field.intDataType);
+                    }
+                }
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, MemberType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-- 
2.43.0


From 59ca6549e06d94af49ceeb944e3f6a54ef965867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 057/126] fix: JSON multi-arrays with dimensions that do not
 match the received elements were accepted and accessed beyond their end

---
 src/serialiser/include/IoSerialiserJson.hpp | 23 +++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 2dcba2b..177f85e 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -564,6 +564,20 @@ struct IoSerialiser<Json, T> {
         }
         std::array<int32_t, T::n_dims_> dimWire;
         IoSerialiser<Json, std::array<int32_t, T::n_dims_>>::deserialise(buffer, fieldHeader, dimWire);
+        FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
+        if (fieldHeader.intDataType != IoSerialiser<Json, std::vector<V>>::getDataTypeId() || fieldHeader.fieldName != "values"sv) {
+            throw ProtocolException("expected multi-array values");
+        }
+        std::vector<V> elements;
+        IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, elements);
+        FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
+        if (fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId()) {
+            throw ProtocolException("expected end marker");
+        }
+        if (!detail::isValidArrayShape(dimWire, elements.size())) {
+            throw ProtocolException("dimensions of the multi-array field {} do not match its {} elements", field.fieldName, elements.size());
+        }
+        value.elements() = std::move(elements);
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
         }
@@ -575,15 +589,6 @@ struct IoSerialiser<Json, T> {
             value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
             value.offset(i - 1) = 0;
         }
-        FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
-        if (fieldHeader.intDataType != IoSerialiser<Json, std::vector<V>>::getDataTypeId() || fieldHeader.fieldName != "values"sv) {
-            throw ProtocolException("expected multi-array values");
-        }
-        IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, value.elements());
-        FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
-        if (fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId()) {
-            throw ProtocolException("expected end marker");
-        }
     }
 };
 
-- 
2.43.0


From bc28a0994b9242a1bccb444f14c0957c8fc7bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 058/126] fix: deeply nested JSON in an unknown field
 overflowed the stack

---
 src/serialiser/include/IoSerialiserJson.hpp | 25 ++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 177f85e..37f6469 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -195,9 +195,11 @@ template<typename T, size_t N>
     }
 }
 
- constexpr void skipValue(IoBuffer &buffer);
+ constexpr std::size_t MAX_NESTING_DEPTH = 1000; // limits the recursion for skipped values
 
-inline void skipField(IoBuffer &buffer) {
+ constexpr void skipValue(IoBuffer &buffer, std::size_t depth = 0);
+
+inline void skipField(IoBuffer &buffer, const std::size_t depth = 0) {
     consumeWhitespace(buffer);
     std::ignore = readString(buffer);
     consumeWhitespace(buffer);
@@ -205,17 +207,17 @@ inline void skipField(IoBuffer &buffer) {
         throw ProtocolException("json malformed, no colon between key/value");
     }
     consumeWhitespace(buffer);
-    skipValue(buffer);
+    skipValue(buffer, depth);
     consumeWhitespace(buffer);
 }
 
- constexpr void skipObject(IoBuffer &buffer) {
+ constexpr void skipObject(IoBuffer &buffer, const std::size_t depth = 0) {
     if (buffer.get<uint8_t>() != '{') {
         throw ProtocolException("error: expected {");
     }
     consumeWhitespace(buffer);
     while (buffer.at<uint8_t>(buffer.position()) != '}') {
-        skipField(buffer);
+        skipField(buffer, depth + 1);
         if (buffer.at<uint8_t>(buffer.position()) == '}') break;
         if (buffer.get<uint8_t>() != ',') {
             throw ProtocolException("Expected comma to separate object fields");
@@ -236,13 +238,13 @@ inline void skipField(IoBuffer &buffer) {
     }
 }
 
- constexpr void skipArray(IoBuffer &buffer) {
+ constexpr void skipArray(IoBuffer &buffer, const std::size_t depth = 0) {
     if (buffer.get<uint8_t>() != '[') {
         throw ProtocolException("error: expected [");
     }
     consumeWhitespace(buffer);
     while (buffer.at<uint8_t>(buffer.position()) != ']') {
-        skipValue(buffer);
+        skipValue(buffer, depth + 1);
         consumeWhitespace(buffer);
         if (buffer.at<uint8_t>(buffer.position()) == ']') break;
         if (buffer.get<uint8_t>() != ',') {
@@ -254,13 +256,16 @@ inline void skipField(IoBuffer &buffer) {
     consumeWhitespace(buffer);
 }
 
- constexpr void skipValue(IoBuffer &buffer) {
+ constexpr void skipValue(IoBuffer &buffer, const std::size_t depth) {
+    if (depth > MAX_NESTING_DEPTH) {
+        throw ProtocolException("json nested too deeply at buffer position {}", buffer.position());
+    }
     consumeWhitespace(buffer);
     const auto firstChar = buffer.at<int8_t>(buffer.position());
     if (firstChar == '{') {
-        skipObject(buffer);
+        skipObject(buffer, depth);
     } else if (firstChar == '[') {
-        skipArray(buffer);
+        skipArray(buffer, depth);
     } else if (firstChar == '"') {
         std::ignore = readString(buffer);
     } else if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false") {
-- 
2.43.0


From d989720f308a57bc3a4116700ee9ae4cb791249f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:56:35 +0000
Subject: [PATCH 059/126] fix: CmwLight sets and skipped arrays with more
 elements than the buffer holds were read for up to 2^31 iterations

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 333e40a..7a395bb 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -27,7 +27,7 @@ inline void skipElements(IoBuffer &buffer, const int32_t nElements, const std::s
 template<typename T>
 void skipRawArray(IoBuffer &buffer) {
     if constexpr (is_stringlike<T>) {
-        for (auto i = buffer.get<int32_t>(); i > 0; i--) {
+        for (auto i = buffer.get<int32_t>(); i > 0 && buffer.position() < buffer.size(); i--) {
             skipString(buffer);
         }
     } else {
@@ -242,7 +242,7 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) noexcept {
         value.clear();
         auto n_elems = buffer.get<int32_t>();
-        for (int i = 0; i < n_elems; i++) {
+        for (int i = 0; i < n_elems && buffer.position() < buffer.size(); i++) {
             MemberType            v;
             const std::string     subfieldName = std::format("{}[{}]", field.fieldName, i);
             FieldDescriptionShort subfield{
@@ -331,7 +331,7 @@ struct IoSerialiser<CmwLight, OTHER> {
         else if (typeId == getTypeIdMultiArray<std::string, 2>() || typeId == getTypeIdMultiArray<std::string, 3>()) { skipMultiArray<std::string>(buffer); }
         // nested
         else if (typeId == IoSerialiser<CmwLight, START_MARKER>::getDataTypeId()) {
-            for (auto i = buffer.get<int32_t>(); i > 0; i--) {
+            for (auto i = buffer.get<int32_t>(); i > 0 && buffer.position() < buffer.size(); i--) {
                 skipString(buffer); // field name
                 FieldDescriptionShort subfield{ .headerStart = buffer.position(), .dataStartPosition = buffer.position(), .dataEndPosition = 0U, .subfields = 0, .fieldName = field.fieldName, .intDataType = buffer.get<uint8_t>(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1) };
                 if (subfield.hierarchyDepth == 0) {
-- 
2.43.0


From 82db79413d69a340374a082f5f6397d2e87affe4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:59:06 +0000
Subject: [PATCH 060/126] fix: reading YAML with empty lines or without a final
 line-break failed, never ended or lost the last character

---
 src/serialiser/include/IoSerialiserYAML.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index b398074..93b504f 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -48,8 +48,8 @@ constexpr void addSpace(IoBuffer &buffer, const uint8_t hierarchyDepth, const ui
     while (buffer.position() < buffer.size() && buffer.at<char>(buffer.position()) != '\n') {
         buffer.skip<false>(1);
     }
-    if (buffer.at<char>(buffer.position()) == '\n') {
-        buffer.skip<false>(1);
+    if (buffer.position() < buffer.size()) {
+        buffer.skip<false>(1); // skip line-break
     }
     return static_cast<int>(buffer.position() - start);
 }
@@ -58,7 +58,8 @@ constexpr void addSpace(IoBuffer &buffer, const uint8_t hierarchyDepth, const ui
     const auto start = buffer.position();
     const auto end   = moveToEndOfLine(buffer);
     buffer.set_position(start);
-    return buffer.asString<false>(start, end - 1);
+    const auto line = buffer.asString(start, end);
+    return line.ends_with('\n') ? line.substr(0, line.size() - 1) : line;
 }
 
 [[nodiscard]] constexpr std::string_view parseNonWhiteSpaceData(IoBuffer &buffer) {
@@ -544,14 +545,20 @@ struct FieldHeaderReader<YAML> {
     template<ProtocolCheck check>
     constexpr static void get(IoBuffer &buffer, const DeserialiserInfo & /*info*/, FieldDescription auto &result) {
         using namespace yaml::detail;
-        while (true) {
+        while (buffer.position() < buffer.size()) {
             const auto line = peekLine(buffer);
-            if (const auto leftStrippedLine = line.substr(line.find_first_not_of(' ')); !leftStrippedLine.starts_with('#') && !leftStrippedLine.starts_with('\n')) {
+            if (const auto firstCharacter = line.find_first_not_of(" \t\r"); firstCharacter != std::string_view::npos && line[firstCharacter] != '#') {
                 break;
             }
             [[maybe_unused]] const auto n = moveToEndOfLine(buffer); // skip commented or empty lines
         }
-        result.headerStart     = buffer.position();
+        result.headerStart = buffer.position();
+        if (buffer.position() == buffer.size()) { // reached end-of-file without end marker
+            result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
+            result.dataStartPosition = buffer.position();
+            result.dataEndPosition   = buffer.position();
+            return;
+        }
         const auto indentation = consumeWhitespace(buffer);
         if (indentation % IOSERIALISER_YAML_INDENTATION) {
             throw ProtocolException("YAML: non canonical indentation depth {} at buffer position {}", indentation, buffer.position());
-- 
2.43.0


From 2f9c479e253d39c6ce56d3f3442f3fd14baad520 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:59:06 +0000
Subject: [PATCH 061/126] fix: the end marker of a YAML document moved the read
 position back to the last field

---
 src/serialiser/include/IoSerialiserYAML.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 93b504f..3d6db96 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -567,7 +567,9 @@ struct FieldHeaderReader<YAML> {
 
         result.fieldName             = readKey(buffer);
         if (buffer.position() == buffer.size() || result.fieldName == "...") { // reached end-of-file
-            result.intDataType = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
+            result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
+            result.dataStartPosition = result.hierarchyDepth == 0 ? buffer.size() : result.headerStart; // N.B. the end of the document also ends all nested structs
+            result.dataEndPosition   = result.dataStartPosition;
             return;
         }
         result.intDataType       = 0;
-- 
2.43.0


From a2308a8134236d770916a4115bd0ef53cabfb208 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:59:06 +0000
Subject: [PATCH 062/126] fix: reading more YAML elements than a std::array
 holds wrote beyond its end

---
 src/serialiser/include/IoSerialiserYAML.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 3d6db96..0e5d052 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -241,6 +241,9 @@ inline void fieldParser(const std::string_view &data, ContainerType &value) {
             if constexpr (requires { value.resize(2); }) {
                 value.resize(value.size() + 1);
             }
+            if (tokenSize >= value.size()) {
+                throw ProtocolException("error parsing array from string '{}' -- more than {} elements", data, value.size());
+            }
             fieldParser<true>(token, value[tokenSize++]);
         }
         if (value.size() != tokenSize) {
@@ -258,6 +261,9 @@ inline void fieldParser(const std::string_view &data, ContainerType &value) {
         if constexpr (requires { value.resize(2); }) {
             value.resize(value.size() + 1);
         }
+        if (tokenSize >= value.size()) {
+            throw ProtocolException("error parsing array from string '{}' -- more than {} elements", data, value.size());
+        }
         fieldParser<true>(token.substr(2), value[tokenSize++]);
     }
     if (value.size() != tokenSize) {
-- 
2.43.0


From 50eb4b348e966a6e56b8947d6f3e826cc6bd4602 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:59:06 +0000
Subject: [PATCH 063/126] fix: sets that are written to several YAML lines
 could not be read back

---
 src/serialiser/include/IoSerialiserYAML.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 0e5d052..0e86f9e 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -330,6 +330,7 @@ inline void fieldParser(const std::string_view &data, std::set<V> &value) {
         if (token.starts_with('#') || token.starts_with('\n')) {
             continue; // skip commented or empty lines
         }
+        ++tokenSize;
         V newval;
         fieldParser<true>(token.substr(2), newval);
         value.insert(newval);
-- 
2.43.0


From b5352ad5911e79234168818dbd6ff4fa993a13e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:59:06 +0000
Subject: [PATCH 064/126] fix: empty strings were read from YAML as two quotes

---
 src/serialiser/include/IoSerialiserYAML.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 0e86f9e..4edb93a 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -207,7 +207,7 @@ inline std::string fieldFormatter(StringLike auto const &value, const int nInden
 template<bool SingleLineParameter>
 inline void fieldParser(const std::string_view &data, StringLike auto &value) {
     if constexpr (SingleLineParameter) {
-        if (data.size() > 2 && data.starts_with('\"') && data.ends_with('\"')) {
+        if (data.size() >= 2 && data.starts_with('\"') && data.ends_with('\"')) {
             value = data.substr(1, data.size() - 2);
             return;
         }
-- 
2.43.0


From f77e6190cc3c20dbdd01faf0bfd5d7717463c0ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:59:06 +0000
Subject: [PATCH 065/126] fix: strings and floating-point numbers that are
 written to a line of their own could not be read back from YAML

---
 src/serialiser/include/IoSerialiserYAML.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 4edb93a..f1bcf19 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -154,9 +154,15 @@ inline std::string fieldFormatter(ArithmeticType auto const &value, const int nI
 
 template<bool SingleLineParameter>
 constexpr void fieldParser(const std::string_view &data, std::floating_point auto &value) {
-    if (const auto result = fast_float::from_chars(data.data(), data.data() + data.size(), value); result.ec != std::errc()) {
-        throw ProtocolException("parsing ArithmeticType (float) from string '{}'", data);
+    if constexpr (SingleLineParameter) {
+        if (const auto result = fast_float::from_chars(data.data(), data.data() + data.size(), value); result.ec != std::errc()) {
+            throw ProtocolException("parsing ArithmeticType (float) from string '{}'", data);
+        }
+        return;
     }
+    // is multi-line parameter, strip meta-info and leading spaces
+    const std::string_view parse = data.substr(data.find_first_not_of(' ', data.find_first_of('\n') + 1));
+    fieldParser<true>(parse, FWD(value));
 }
 
 template<bool SingleLineParameter>
@@ -214,7 +220,12 @@ inline void fieldParser(const std::string_view &data, StringLike auto &value) {
         value = std::string{ FWD(data) };
         return;
     }
-    throw ProtocolException("reading multi-line strings is not yet supported"); // TODO: read multi-line string
+    // is multi-line parameter, strip meta-info and leading spaces
+    const std::string_view parse = data.substr(data.find_first_not_of(' ', data.find_first_of('\n') + 1));
+    if (parse.find('\n') != std::string_view::npos) {
+        throw ProtocolException("reading multi-line strings is not yet supported"); // TODO: read multi-line string
+    }
+    fieldParser<true>(parse, FWD(value));
 }
 
 inline std::string fieldFormatter(ArrayOrVector auto const &value, const int nIndentation = 0) noexcept {
-- 
2.43.0


From 078f01e76bf50dddcd7818b2962e005912a15f78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:59:06 +0000
Subject: [PATCH 066/126] fix: YAML elements that are not separated by a space
 included the separator

---
 src/serialiser/include/IoSerialiserYAML.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index f1bcf19..cd2e638 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -124,7 +124,7 @@ constexpr std::string_view stringTokenizer(std::string_view &input, const char d
         return {};
     }
     if (const auto second = std::min(input.find_first_of(delimiter), input.size() + 1); second != 0) {
-        const auto end    = second < input.size() ? input.find_last_not_of(' ', second + 1) : second; // trimming trailing spaces
+        const auto end    = second < input.size() ? input.find_last_not_of(' ', second - 1) + 1 : second; // trimming trailing spaces
         auto       result = input.substr(0, end);
         input.remove_prefix(std::min(second + 1, input.size()));
         return result;
-- 
2.43.0


From c916d413749567e3a7ac5ace1fb6874dc7b9b47a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:05:12 +0000
Subject: [PATCH 067/126] fix: YAML structs following another struct were lost,
 and comments or empty lines between fields ended a nested struct

---
 src/serialiser/include/IoSerialiserYAML.hpp | 47 ++++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index cd2e638..5716de9 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -62,6 +62,11 @@ constexpr void addSpace(IoBuffer &buffer, const uint8_t hierarchyDepth, const ui
     return line.ends_with('\n') ? line.substr(0, line.size() - 1) : line;
 }
 
+[[nodiscard]] constexpr bool isCommentOrEmpty(const std::string_view line) noexcept {
+    const auto firstCharacter = line.find_first_not_of(" \t\r");
+    return firstCharacter == std::string_view::npos || line[firstCharacter] == '#';
+}
+
 [[nodiscard]] constexpr std::string_view parseNonWhiteSpaceData(IoBuffer &buffer) {
     constexpr auto isWhiteSpace = [](uint8_t c) noexcept { return c == ' ' || c == '\t' || c == '\r'; };
     auto           start        = buffer.position();
@@ -563,18 +568,19 @@ struct FieldHeaderReader<YAML> {
     template<ProtocolCheck check>
     constexpr static void get(IoBuffer &buffer, const DeserialiserInfo & /*info*/, FieldDescription auto &result) {
         using namespace yaml::detail;
+        const auto previousEnd = buffer.position();
         while (buffer.position() < buffer.size()) {
-            const auto line = peekLine(buffer);
-            if (const auto firstCharacter = line.find_first_not_of(" \t\r"); firstCharacter != std::string_view::npos && line[firstCharacter] != '#') {
+            if (!isCommentOrEmpty(peekLine(buffer))) {
                 break;
             }
             [[maybe_unused]] const auto n = moveToEndOfLine(buffer); // skip commented or empty lines
         }
         result.headerStart = buffer.position();
-        if (buffer.position() == buffer.size()) { // reached end-of-file without end marker
-            result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
-            result.dataStartPosition = buffer.position();
-            result.dataEndPosition   = buffer.position();
+        if (buffer.position() == buffer.size() || peekLine(buffer).starts_with("...")) { // reached end-of-file or end of the document
+            [[maybe_unused]] const auto n = moveToEndOfLine(buffer);
+            result.intDataType            = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
+            result.dataStartPosition      = result.hierarchyDepth <= 1 ? buffer.position() : previousEnd; // N.B. the end of the document also ends all nested structs
+            result.dataEndPosition        = result.dataStartPosition;
             return;
         }
         const auto indentation = consumeWhitespace(buffer);
@@ -583,11 +589,12 @@ struct FieldHeaderReader<YAML> {
         }
         const auto newHierarchyDepth = static_cast<uint8_t>(indentation / IOSERIALISER_YAML_INDENTATION);
 
+        const bool isFirstHeader     = result.fieldName.empty(); // i.e. the header of the (nested) struct itself
         result.fieldName             = readKey(buffer);
-        if (buffer.position() == buffer.size() || result.fieldName == "...") { // reached end-of-file
+        if (buffer.position() == buffer.size()) { // reached end-of-file
             result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
-            result.dataStartPosition = result.hierarchyDepth == 0 ? buffer.size() : result.headerStart; // N.B. the end of the document also ends all nested structs
-            result.dataEndPosition   = result.dataStartPosition;
+            result.dataStartPosition = buffer.position();
+            result.dataEndPosition   = buffer.position();
             return;
         }
         result.intDataType       = 0;
@@ -595,22 +602,30 @@ struct FieldHeaderReader<YAML> {
         if (result.fieldName.size() != 0 && buffer.at<char8_t>(buffer.position()) == '\n') { // start marker
             result.intDataType       = IoSerialiser<YAML, START_MARKER>::getDataTypeId();
             result.dataStartPosition = buffer.position() + static_cast<std::size_t>(moveToEndOfLine(buffer));
-            result.hierarchyDepth    = newHierarchyDepth;
+            if (isFirstHeader) {
+                result.hierarchyDepth = newHierarchyDepth == 0 ? 0 : newHierarchyDepth + 1; // the fields of the struct are expected to be indented
+            }
         }
 
-        if (result.fieldName.size() != 0 && newHierarchyDepth < result.hierarchyDepth) { // end marker
+        if (!isFirstHeader && result.fieldName.size() != 0 && newHierarchyDepth < result.hierarchyDepth) { // end marker
             result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
-            result.dataStartPosition = result.headerStart;
-            result.dataEndPosition   = result.headerStart;
+            result.dataStartPosition = previousEnd;
+            result.dataEndPosition   = previousEnd;
             return;
         }
-        result.hierarchyDepth = newHierarchyDepth;
+        if (!isFirstHeader) {
+            result.hierarchyDepth = newHierarchyDepth;
+        }
 
         // check for next key at the same or higher hierarchy level
+        bool isPartOfField = true;
         do {
             [[maybe_unused]] const auto n = moveToEndOfLine(buffer);
-            result.dataEndPosition        = buffer.position();
-        } while (consumeWhitespace(buffer) > indentation);
+            if (isPartOfField) {
+                result.dataEndPosition = buffer.position();
+            }
+            isPartOfField = !isCommentOrEmpty(peekLine(buffer));
+        } while (buffer.position() < buffer.size() && (!isPartOfField || consumeWhitespace(buffer) > indentation));
         buffer.set_position(result.dataEndPosition);
     }
 };
-- 
2.43.0


From 5a52e09e7b0d5c05f965e21c90bfc34171ec57c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:06:11 +0000
Subject: [PATCH 068/126] fix: the YAML header check moved the read position
 beyond the end of short buffers

---
 src/serialiser/include/IoSerialiserYAML.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 5716de9..ce2c667 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -443,10 +443,10 @@ inline DeserialiserInfo checkHeaderInfo<YAML>(IoBuffer &buffer, DeserialiserInfo
             throw ProtocolException("YAML: buffer too small or missing (`---') line: '{}' pos: {}  size: {}", line, position, buffer.size());
         }
     }
-    buffer.skip<false>(3);
+    buffer.set_position(std::min(position + 3, buffer.size()));
     [[maybe_unused]] const auto nWhitespaces = static_cast<std::size_t>(yaml::detail::consumeWhitespace(buffer));
     [[maybe_unused]] const auto nTillEnd     = static_cast<std::size_t>(yaml::detail::moveToEndOfLine(buffer));
-    if (nTillEnd > 1 || buffer.at<uint8_t>(buffer.position() - 1) != '\n') {
+    if (nTillEnd > 1 || buffer.position() == 0 || buffer.at<uint8_t>(buffer.position() - 1) != '\n') {
         if (check == ProtocolCheck::LENIENT) {
             // info.exceptions.emplace_back("YAML: non-white-space characters after (`---') line: '{}' pos: {}  size: {}", line, position, buffer.size());
             info.exceptions.push_back(ProtocolException{ "YAML: non-white-space characters after (`---') line: '{}' pos: {}  size: {}", line, position, buffer.size() });
-- 
2.43.0


From a4e2137ff7e98315d71e998f03064a19821daf4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:29:09 +0000
Subject: [PATCH 069/126] fix: the mustache view of a MultiArray referred to
 the elements of a destroyed copy

---
 src/serialiser/include/MustacheSerialiser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/MustacheSerialiser.hpp b/src/serialiser/include/MustacheSerialiser.hpp
index 6d6a626..6745117 100644
--- a/src/serialiser/include/MustacheSerialiser.hpp
+++ b/src/serialiser/include/MustacheSerialiser.hpp
@@ -219,7 +219,7 @@ public:
 template<MultiArrayType T>
 class mustache_data<T> : public mustache_data<std::vector<typename T::value_type>> {
 public:
-    explicit mustache_data(T val)
+    explicit mustache_data(const T &val)
         : mustache_data<std::vector<typename T::value_type>>(val.elements()) {}
 };
 
-- 
2.43.0


From 561f4eedfbb303580cca5b4133b797489220b6b8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:31:20 +0000
Subject: [PATCH 070/126] fix: workers with the same object types rendered the
 mustache template of whichever was used first

---
 src/serialiser/include/MustacheSerialiser.hpp | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/serialiser/include/MustacheSerialiser.hpp b/src/serialiser/include/MustacheSerialiser.hpp
index 6745117..90a8584 100644
--- a/src/serialiser/include/MustacheSerialiser.hpp
+++ b/src/serialiser/include/MustacheSerialiser.hpp
@@ -1,6 +1,9 @@
 #ifndef OPENCMW_MUSTACHESERIALISER_H
 #define OPENCMW_MUSTACHESERIALISER_H
 
+#include <mutex>
+#include <unordered_map>
+
 #include <mustache.hpp>
 
 #include <IoSerialiserJson.hpp>
@@ -359,22 +362,24 @@ template<typename VirtualFS, typename Stream, typename... Objects>
 void serialise(const VirtualFS &fs, const std::string &workerName, Stream &out, std::pair<std::string, const Objects &> &&...namedObjects) {
     static_assert((ReflectableClass<std::remove_cvref_t<Objects>> && ...));
 
-    static const auto fileName = "assets/mustache/" + workerName + ".mustache";
-
-    using mustache_ns          = kainjow::mustache_ns<std::string, mustache_data_base>;
-    // Structured bindings here break the linker...
-    // Should be const auto [ customTemplateExists, mustache ]
-    static auto pair = [&fs] {
-        const bool  customTemplateExists = fs.exists(fileName);
-        const auto  file                 = fs.open(customTemplateExists ? fileName.data() : "assets/mustache/default.mustache");
-        std::string contents(file.cbegin(), file.cend());
-        auto        renderer = mustache_ns::mustache(contents);
-        return std::make_pair(customTemplateExists, renderer);
+    using mustache_ns = kainjow::mustache_ns<std::string, mustache_data_base>;
+    // the parsed templates (and whether they are specific to the worker); workers can share the types of their objects, and be run by different threads
+    static std::mutex                                                                       templatesMutex;
+    static std::unordered_map<std::string, std::pair<bool, typename mustache_ns::mustache>> templates;
+
+    auto [customTemplateExists, mustache] = [&fs, &workerName] {
+        std::scoped_lock lock(templatesMutex);
+        auto             it = templates.find(workerName);
+        if (it == templates.end()) {
+            const auto  fileName             = "assets/mustache/" + workerName + ".mustache";
+            const bool  customTemplateExists = fs.exists(fileName);
+            const auto  file                 = fs.open(customTemplateExists ? fileName.data() : "assets/mustache/default.mustache");
+            std::string contents(file.cbegin(), file.cend());
+            it = templates.emplace(workerName, std::make_pair(customTemplateExists, typename mustache_ns::mustache(contents))).first;
+        }
+        return it->second;
     }();
 
-    const bool customTemplateExists = pair.first;
-    auto      &mustache             = pair.second;
-
     // Map of objects that we want mustache to see
     std::unordered_map<std::string, std::unique_ptr<mustache_data_base>> value;
 
-- 
2.43.0


From aa0a7c23258a122e7bcb0c1499895c702c8d1239 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:31:20 +0000
Subject: [PATCH 071/126] fix: a nested list was empty when a mustache template
 iterated over it a second time

---
 src/serialiser/include/MustacheSerialiser.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/MustacheSerialiser.hpp b/src/serialiser/include/MustacheSerialiser.hpp
index 90a8584..1751554 100644
--- a/src/serialiser/include/MustacheSerialiser.hpp
+++ b/src/serialiser/include/MustacheSerialiser.hpp
@@ -170,7 +170,7 @@ class mustache_data<T> : public mustache_data_base {
 private:
     const T &_value;
 
-    // Allowing single iteration over the list
+    // Allowing one iteration over the list at a time
     mutable typename T::const_iterator          _it;
     mutable std::unique_ptr<mustache_data_base> _current;
 
@@ -183,7 +183,10 @@ public:
     const mustache_data_base *next_list_item() const override {
         _current.reset();
 
-        if (_it == _value.cend()) return nullptr;
+        if (_it == _value.cend()) {
+            _it = _value.cbegin(); // the template may iterate over the list again
+            return nullptr;
+        }
 
         _current = std::make_unique<mustache_data<typename T::value_type>>(*_it);
         ++_it;
@@ -197,7 +200,7 @@ class mustache_data<std::set<MemberType>> : public mustache_data_base {
 private:
     const std::set<MemberType> &_value;
 
-    // Allowing single iteration over the list
+    // Allowing one iteration over the list at a time
     mutable typename std::set<MemberType>::const_iterator _it;
     mutable std::unique_ptr<mustache_data_base>           _current;
 
@@ -210,7 +213,10 @@ public:
     const mustache_data_base *next_list_item() const override {
         _current.reset();
 
-        if (_it == _value.cend()) return nullptr;
+        if (_it == _value.cend()) {
+            _it = _value.cbegin(); // the template may iterate over the list again
+            return nullptr;
+        }
 
         _current = std::make_unique<mustache_data<MemberType>>(*_it);
         ++_it;
-- 
2.43.0


From 9bab6c5b85bf7fee1f64ee2c66d9398de97d3d48 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:34:25 +0000
Subject: [PATCH 072/126] fix: the multi-producer ring buffer's published flags
 were written and read without synchronisation

---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..c72c512 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -116,7 +116,7 @@ template<std::size_t SIZE, WaitStrategy WAIT_STRATEGY>
 class MultiThreadedStrategy {
     alignas(kCacheLine) Sequence &_cursor;
     alignas(kCacheLine) WAIT_STRATEGY &_waitStrategy;
-    alignas(kCacheLine) std::array<std::int32_t, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
+    alignas(kCacheLine) std::array<std::atomic<std::int32_t>, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
     alignas(kCacheLine) std::shared_ptr<Sequence> _gatingSequenceCache = std::make_shared<Sequence>();
     static constexpr std::int32_t _indexMask                           = SIZE - 1;
     static constexpr std::int32_t _indexShift                          = ceillog2(SIZE);
@@ -218,7 +218,7 @@ public:
         const auto index = calculateIndex(sequence);
         const auto flag  = calculateAvailabilityFlag(sequence);
 
-        return _availableBuffer[static_cast<std::size_t>(index)] == flag;
+        return _availableBuffer[static_cast<std::size_t>(index)].load(std::memory_order_acquire) == flag;
     }
 
     [[nodiscard]] OPENCMW_FORCEINLINE std::int64_t getHighestPublishedSequence(const std::int64_t lowerBound, const std::int64_t availableSequence) const noexcept {
@@ -233,7 +233,7 @@ public:
 
 private:
     void                              setAvailable(std::int64_t sequence) noexcept { setAvailableBufferValue(calculateIndex(sequence), calculateAvailabilityFlag(sequence)); }
-    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index] = flag; }
+    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index].store(flag, std::memory_order_release); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::int32_t calculateAvailabilityFlag(const std::int64_t sequence) const noexcept { return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::size_t calculateIndex(const std::int64_t sequence) const noexcept { return static_cast<std::size_t>(static_cast<std::int32_t>(sequence) & _indexMask); }
 };
-- 
2.43.0


From a3ebda958e6a2d94e67c53c2261a3d22eeeb6cec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:34:38 +0000
Subject: [PATCH 073/126] fix: the alert flag of a sequence barrier was shared
 between threads without synchronisation

---
 src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
index e6ab764..0c1a227 100644
--- a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
+++ b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
@@ -24,7 +24,7 @@ class ProcessingSequenceBarrier : public ISequenceBarrier, public std::enable_sh
     WAIT_STRATEGY                                          &_waitStrategyRef;
     EventStore<T>                                          &_sequenceProviderRef;
 
-    bool                                                    _alerted = false;
+    std::atomic<bool>                                       _alerted{ false };
 
 public:
     ProcessingSequenceBarrier(const std::shared_ptr<EventStore<T>> &sequenceProvider,
-- 
2.43.0


From 8aa6426b30e9916256eb222e044d1a56414f0520 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:34:38 +0000
Subject: [PATCH 074/126] fix: worker pools and the subscript operator of the
 disruptor could not be instantiated

---
 src/disruptor/include/disruptor/Disruptor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/Disruptor.hpp b/src/disruptor/include/disruptor/Disruptor.hpp
index 209d61b..7334253 100644
--- a/src/disruptor/include/disruptor/Disruptor.hpp
+++ b/src/disruptor/include/disruptor/Disruptor.hpp
@@ -344,7 +344,7 @@ public:
      * \returns event for the sequence
      */
     T &operator[](std::int64_t sequence) const {
-        return _ringBuffer[sequence];
+        return (*_ringBuffer)[sequence];
     }
 
     /**
@@ -384,7 +384,7 @@ public:
 
     std::shared_ptr<EventHandlerGroupType> createWorkerPool(const std::vector<std::shared_ptr<Sequence>> &barrierSequences,
             const std::vector<std::shared_ptr<IWorkHandler<T>>>                                          &workHandlers) {
-        auto sequenceBarrier = _ringBuffer->newBarrier(barrierSequences);
+        auto sequenceBarrier = newBarrier(_ringBuffer, barrierSequences);
         auto workerPool      = std::make_shared<WorkerPool<T>>(_ringBuffer, sequenceBarrier, _exceptionHandler, workHandlers);
         _consumerRepository->add(workerPool, sequenceBarrier);
 
-- 
2.43.0


From 35d84fb2eaf59397645f6bd79fe5cd94dfc7b6f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:39:39 +0000
Subject: [PATCH 075/126] fix: the minimum of concurrently advancing sequences
 could be overestimated, so that slots were overwritten before they were read

---
 src/disruptor/include/disruptor/Sequence.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..747d134 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -62,18 +62,11 @@ inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequenc
     if (sequences.empty()) {
         return minimum;
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
+    // N.B. each sequence is read once: it may be advanced concurrently, and the value of another one may be the minimum by then
+    for (const auto &sequence : sequences) {
+        minimum = std::min(minimum, sequence->value());
     }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From 04c515c4d88a9e30ef2094e460d7401029152890 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:39:57 +0000
Subject: [PATCH 076/126] fix: looking up the processor of an event handler
 could not be instantiated

---
 src/disruptor/include/disruptor/ConsumerRepository.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/ConsumerRepository.hpp b/src/disruptor/include/disruptor/ConsumerRepository.hpp
index 1dbf525..cde36e9 100644
--- a/src/disruptor/include/disruptor/ConsumerRepository.hpp
+++ b/src/disruptor/include/disruptor/ConsumerRepository.hpp
@@ -63,7 +63,7 @@ public:
     std::shared_ptr<IEventProcessor> getEventProcessorFor(const std::shared_ptr<IEventHandler<T>> &eventHandler) {
         auto it = _eventProcessorInfoByEventHandler.find(eventHandler);
         if (it == _eventProcessorInfoByEventHandler.end() || it->second == nullptr) {
-            throw std::invalid_argument(std::format("The event handler {} is not processing events.", eventHandler));
+            throw std::invalid_argument(std::format("The event handler {} is not processing events.", static_cast<const void *>(eventHandler.get())));
         }
 
         auto &&eventProcessorInfo = it->second;
-- 
2.43.0


From 0d3484f9349185afb94fc51d8c0a4bf1d277a4aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 077/126] fix: halting a processor that had not started to run
 yet, or was just starting, was lost

---
 .../include/disruptor/BatchEventProcessor.hpp | 27 +++++++++++++-----
 .../include/disruptor/WorkProcessor.hpp       | 28 ++++++++++++++-----
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index b857e96..d76cff3 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -23,7 +23,10 @@ namespace opencmw::disruptor {
 template<typename T>
 class BatchEventProcessor : public IEventProcessor {
 private:
-    std::atomic<bool>                     _running{ false };
+    enum class State { Idle,
+        Running,
+        Halted };
+    std::atomic<State>                    _state{ State::Idle };
     std::shared_ptr<EventStore<T>>        _dataProvider;
     EventStore<T>                        &_dataProviderRef;
     std::shared_ptr<ISequenceBarrier>     _sequenceBarrier;
@@ -74,7 +77,7 @@ public:
      * \see ISequenceBarrier::Alert
      */
     void halt() override {
-        _running = false;
+        _state = State::Halted;
         _sequenceBarrier->alert();
     }
 
@@ -82,7 +85,7 @@ public:
      * \see IEventProcessor::IsRunning
      */
     bool isRunning() const override {
-        return _running;
+        return _state == State::Running;
     }
 
     /**
@@ -101,11 +104,21 @@ public:
      * It is ok to have another thread rerun this method after a halt().
      */
     void run() override {
-        if (_running.exchange(true)) {
-            throw std::runtime_error("Thread is already running");
+        if (auto state = State::Idle; !_state.compare_exchange_strong(state, State::Running)) {
+            if (state == State::Running) {
+                throw std::runtime_error("Thread is already running");
+            }
+            // halted before it was run
+            notifyStart();
+            notifyShutdown();
+            _state = State::Idle;
+            return;
         }
 
         _sequenceBarrierRef.clearAlert();
+        if (_state != State::Running) { // halted in the meantime, together with others that share the barrier
+            _sequenceBarrierRef.alert();
+        }
 
         notifyStart();
 
@@ -127,7 +140,7 @@ public:
             } catch (const TimeoutException &) {
                 notifyTimeout(_sequenceRef.value());
             } catch (const AlertException &) {
-                if (_running == false) {
+                if (_state != State::Running) {
                     break;
                 }
             } catch (const std::exception &ex) {
@@ -138,7 +151,7 @@ public:
         }
 
         notifyShutdown();
-        _running = false;
+        _state = State::Idle;
     }
 
 private:
diff --git a/src/disruptor/include/disruptor/WorkProcessor.hpp b/src/disruptor/include/disruptor/WorkProcessor.hpp
index 0ae3a70..4029d53 100644
--- a/src/disruptor/include/disruptor/WorkProcessor.hpp
+++ b/src/disruptor/include/disruptor/WorkProcessor.hpp
@@ -30,7 +30,10 @@ private:
 
     struct PrivateKey {};
 
-    std::atomic<std::int32_t>             _running{ 0 };
+    enum class State { Idle,
+        Running,
+        Halted };
+    std::atomic<State>                    _state{ State::Idle };
     std::shared_ptr<Sequence>             _sequence = std::make_shared<Sequence>();
     std::shared_ptr<EventStore<T>>        _ringBuffer;
     std::shared_ptr<ISequenceBarrier>     _sequenceBarrier;
@@ -98,20 +101,31 @@ public:
      * Signal that this IEventProcessor should stop when it has finished consuming at the next clean break. It will call ISequenceBarrier::alert() to notify the thread to check status.
      */
     void halt() override {
-        _running = 0;
+        _state = State::Halted;
         _sequenceBarrier->alert();
     }
 
-    [[nodiscard]] bool isRunning() const override { return _running == 1; }
+    [[nodiscard]] bool isRunning() const override { return _state == State::Running; }
 
     /**
      * It is ok to have another thread re-run this method after a halt().
      */
     void run() override {
-        if (std::atomic_exchange(&_running, 1) != 0) {
-            throw std::logic_error("Thread is already running");
+        if (auto state = State::Idle; !_state.compare_exchange_strong(state, State::Running)) {
+            if (state == State::Running) {
+                throw std::logic_error("Thread is already running");
+            }
+            // halted before it was run
+            notifyStart();
+            notifyShutdown();
+            _state = State::Idle;
+            return;
         }
+
         _sequenceBarrier->clearAlert();
+        if (_state != State::Running) { // halted in the meantime, together with others that share the barrier
+            _sequenceBarrier->alert();
+        }
 
         notifyStart();
 
@@ -141,7 +155,7 @@ public:
             } catch (const TimeoutException &) {
                 notifyTimeout(_sequence->value());
             } catch (const AlertException &) {
-                if (_running == 0) {
+                if (_state != State::Running) {
                     break;
                 }
             } catch (std::exception &ex) {
@@ -152,7 +166,7 @@ public:
 
         notifyShutdown();
 
-        _running = 0;
+        _state = State::Idle;
     }
 
 private:
-- 
2.43.0


From 12f7cec07f98a690fb664d30873f7876131baab0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:48:00 +0000
Subject: [PATCH 078/126] fix: producers used the list of gating sequences
 after it was replaced and freed by another thread

---
 src/disruptor/include/disruptor/RingBuffer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disruptor/include/disruptor/RingBuffer.hpp b/src/disruptor/include/disruptor/RingBuffer.hpp
index 369e87d..b6dda72 100644
--- a/src/disruptor/include/disruptor/RingBuffer.hpp
+++ b/src/disruptor/include/disruptor/RingBuffer.hpp
@@ -44,10 +44,10 @@ public:
     }
 
     [[nodiscard]] constexpr std::int32_t                    bufferSize() const noexcept override { return SIZE; }
-    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(*_gatingSequences, requiredCapacity, _cursor->value()); }
-    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(*_gatingSequences); }
+    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(*getGatingSequences(), requiredCapacity, _cursor->value()); }
+    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(*getGatingSequences(), n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(*getGatingSequences(), n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(*getGatingSequences()); }
     void                                                    publish(std::int64_t sequence) override { _claimStrategy->publish(sequence); }
     [[nodiscard]] OPENCMW_FORCEINLINE bool                  isAvailable(std::int64_t sequence) const noexcept override { return _claimStrategy->isAvailable(sequence); }
     [[nodiscard]] std::int64_t                              getHighestPublishedSequence(std::int64_t nextSequence, std::int64_t availableSequence) const noexcept override { return _claimStrategy->getHighestPublishedSequence(nextSequence, availableSequence); }
@@ -55,8 +55,8 @@ public:
     [[nodiscard]] bool                                      isPublished(std::int64_t sequence) const noexcept override { return isAvailable(sequence); }
     void                                                    addGatingSequences(const std::vector<std::shared_ptr<Sequence>> &gatingSequences) override { detail::addSequences(_gatingSequences, *_cursor, gatingSequences); }
     bool                                                    removeGatingSequence(const std::shared_ptr<Sequence> &sequence) override { return detail::removeSequence(_gatingSequences, sequence); }
-    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return _gatingSequences; }
-    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(*_gatingSequences, _cursor->value()); }
+    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return std::atomic_load_explicit(&_gatingSequences, std::memory_order_acquire); }
+    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(*getGatingSequences(), _cursor->value()); }
     [[nodiscard]] auto                                      claimStrategy() { return _claimStrategy; }
     [[nodiscard]] auto                                      waitStrategy() { return _waitStrategy; }
     [[nodiscard]] auto                                      cursorSequence() { return _cursor; }
-- 
2.43.0


From 9b330f52cbe1241d25f53419f3651dfce9a9e51f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:52:51 +0000
Subject: [PATCH 079/126] fix: the single-producer ring buffer made claimed
 events visible before they were published

---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index c72c512..52d871a 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -57,8 +57,6 @@ public:
         auto wrapPoint    = nextSequence - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _cachedValue; wrapPoint > cachedGatingSequence || cachedGatingSequence > _nextValue) {
-            _cursor.setValue(_nextValue);
-
             SpinWait     spinWait;
             std::int64_t minSequence;
             while (wrapPoint > (minSequence = detail::getMinimumSequence(dependents, _nextValue))) {
-- 
2.43.0


From 12a64464647753eb5614c6f0d6d4a52204fae1ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:13:11 +0000
Subject: [PATCH 080/126] fix: MessageFrame(char) released its array with the
 non-array delete

---
 src/zmq/include/zmq/ZmqUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d50571b..0f4e8e2 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -236,7 +236,7 @@ public:
         zmq_msg_init_data(
                 &_message, copy, 1,
                 [](void * /*unused*/, void *bufOwned) {
-                    delete static_cast<char *>(bufOwned);
+                    delete[] static_cast<char *>(bufOwned);
                 },
                 copy);
     }
-- 
2.43.0


From 083e8b895d2ac09df564ac09df43ab639615f054 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:13:44 +0000
Subject: [PATCH 081/126] fix: a message with a malformed topic made
 zmq::receive() throw instead of being ignored

---
 src/zmq/include/zmq/ZmqUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index 0f4e8e2..8fa6220 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -442,7 +442,11 @@ template<mdp::MessageFormat Format>
     msg.command         = static_cast<mdp::Command>(commandStr[0]);
     msg.serviceName     = std::string(zmsg.frame(ZmqMessage<Format>::Frame::ServiceName).data());
     msg.clientRequestID = IoBuffer(clientRequestId.data(), clientRequestId.size());
-    msg.topic           = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    try {
+        msg.topic = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    } catch (const URISyntaxException &) {
+        return {}; // malformed topic
+    }
     msg.data            = IoBuffer(data.data(), data.size());
     msg.error           = std::string(zmsg.frame(ZmqMessage<Format>::Frame::Error).data());
     msg.rbac            = IoBuffer(rbac.data(), rbac.size());
-- 
2.43.0


From 7a2ab4626433dc8c8a9929d13ed6fbfd10486818 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:20:26 +0000
Subject: [PATCH 082/126] fix: a worker could be queued as waiting more than
 once or for an unknown service

---
 src/majordomo/include/majordomo/Broker.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c0c9e73..eba82ce 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -825,7 +825,13 @@ private:
         // TODO
         // waiting.addLast(worker);
         auto service = _services.find(worker.serviceName);
-        service->second.waiting.push_back(&worker);
+        if (service == _services.end()) {
+            return; // never announced itself with READY
+        }
+        auto &waiting = service->second.waiting;
+        if (std::find(waiting.begin(), waiting.end(), &worker) == waiting.end()) {
+            waiting.push_back(&worker);
+        }
         worker.expiry = updatedWorkerExpiry();
         dispatch(service->second);
     }
-- 
2.43.0


From fd34de1dd091738b96d2fc15e0640af5f4c7dc92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:20:26 +0000
Subject: [PATCH 083/126] fix: a worker that registered for another service
 kept serving the old one

---
 src/majordomo/include/majordomo/Broker.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index eba82ce..c57b81c 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -965,7 +965,12 @@ private:
 
     void processWorker(const zmq::Socket &socket, BrokerMessage &&message) {
         const auto &serviceId   = message.sourceId;
-        const auto  knownWorker = _workers.contains(serviceId);
+        auto        known       = _workers.find(serviceId);
+        if (known != _workers.end() && message.command == mdp::Command::Ready && known->second.serviceName != message.serviceName) {
+            deleteWorker(known->second); // registers for another service
+            known = _workers.end();
+        }
+        const auto  knownWorker = known != _workers.end();
         auto       &worker      = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second;
 
         switch (message.command) {
-- 
2.43.0


From 33ff0b9606355a77f015bdb82c16c17a6a2e9e6b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:20:26 +0000
Subject: [PATCH 084/126] fix: a worker was given the next request after a
 partial reply

---
 src/majordomo/include/majordomo/Broker.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c57b81c..5ea75f9 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -993,7 +993,8 @@ private:
         case mdp::Command::Partial:
         case mdp::Command::Final: {
             if (knownWorker) {
-                auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
+                const auto isFinal = message.command == mdp::Command::Final;
+                auto       client  = _clients.find(message.serviceName); // serviceName=clientSourceID
                 if (client == _clients.end()) {
                     return; // drop if client unknown/disappeared
                 }
@@ -1009,7 +1010,9 @@ private:
                     zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
-                workerWaiting(worker);
+                if (isFinal) {
+                    workerWaiting(worker);
+                }
             } else {
                 disconnectWorker(worker);
             }
-- 
2.43.0


From 47ab07a57b46849e13530087e2b677583c9ba7b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:20:26 +0000
Subject: [PATCH 085/126] fix: a worker whose client had disappeared never got
 another request

---
 src/majordomo/include/majordomo/Broker.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 5ea75f9..db7350e 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -995,8 +995,11 @@ private:
             if (knownWorker) {
                 const auto isFinal = message.command == mdp::Command::Final;
                 auto       client  = _clients.find(message.serviceName); // serviceName=clientSourceID
-                if (client == _clients.end()) {
-                    return; // drop if client unknown/disappeared
+                if (client == _clients.end()) { // drop if client unknown/disappeared
+                    if (isFinal) {
+                        workerWaiting(worker);
+                    }
+                    return;
                 }
 
                 message.sourceId     = message.serviceName; // serviceName=clientSourceID
-- 
2.43.0


From 1331e36a95fb2e3f6accf56fe9af51fd26687e0a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:20:26 +0000
Subject: [PATCH 086/126] fix: clients expired although they kept sending
 requests

---
 src/majordomo/include/majordomo/Broker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index db7350e..f3b2a47 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -720,6 +720,7 @@ private:
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
+            client->second.expiry = updatedClientExpiry();
             client->second.requests.emplace_back(std::move(message));
 
             return true;
-- 
2.43.0


From d367a796692aa35c334d5ef54a0a0b51b859935e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:20:26 +0000
Subject: [PATCH 087/126] fix: client messages other than GET and SET were
 dispatched to workers, which do not answer them

---
 src/majordomo/include/majordomo/Broker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index f3b2a47..3e1c08d 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -714,9 +714,12 @@ private:
             }
             case mdp::Command::Heartbeat:
                 sendDnsHeartbeats(true);
+                return true;
+            case mdp::Command::Get:
+            case mdp::Command::Set:
                 break;
             default:
-                break;
+                return true; // not a request
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
-- 
2.43.0


From 0bc31709a7c318ac6023adc7b2faa0e299b1e7e1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:22:23 +0000
Subject: [PATCH 088/126] fix: the broker went to sleep with requests left
 unprocessed

---
 src/majordomo/include/majordomo/Broker.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 3e1c08d..f19966b 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -516,7 +516,7 @@ public:
             anythingReceived |= receiveMessage(_subSocket);
             anythingReceived |= receivePubMessage(_pubSocket);
 
-            processClients();
+            anythingReceived |= processClients();
 
             if (loopCount % 10 == 0) { // perform maintenance task every 10th iteration
                 purgeWorkers();
@@ -857,13 +857,16 @@ private:
         }
     }
 
-    void processClients() {
+    // returns true if a request was handled, i.e. if there may be more of them
+    bool processClients() {
+        bool anythingProcessed = false;
         for (auto &[senderId, client] : _clients) {
             if (client.requests.empty())
                 continue;
 
             auto clientMessage = std::move(client.requests.front());
             client.requests.pop_front();
+            anythingProcessed = true;
 
             if (auto service = bestMatchingService(clientMessage.serviceName)) {
                 if (service->internalHandler) {
@@ -879,7 +882,7 @@ private:
                     service->putMessage(std::move(clientMessage));
                     dispatch(*service);
                 }
-                return;
+                continue;
             }
 
             // not implemented -- reply according to Majordomo Management Interface (MMI) as defined in http://rfc.zeromq.org/spec:8
@@ -899,6 +902,7 @@ private:
                 zmq::send(std::move(reply), client.socket.value()).assertSuccess();
             }
         }
+        return anythingProcessed;
     }
 
     void purgeClients() {
-- 
2.43.0


From 32303705ba732eb258c4a220a3be12ede144ee66 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:30:55 +0000
Subject: [PATCH 089/126] fix: a worker announcing a malformed service name
 ended the broker

---
 src/majordomo/include/majordomo/Broker.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index f19966b..0501845 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -972,6 +972,10 @@ private:
     }
 
     void processWorker(const zmq::Socket &socket, BrokerMessage &&message) {
+        if (message.command == mdp::Command::Ready && !mdp::isValidServiceName(message.serviceName)) {
+            return; // malformed service name, ignore
+        }
+
         const auto &serviceId   = message.sourceId;
         auto        known       = _workers.find(serviceId);
         if (known != _workers.end() && message.command == mdp::Command::Ready && known->second.serviceName != message.serviceName) {
-- 
2.43.0


From 90e90424551b8b13230279aeacb29fe63d9bb902 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:33:04 +0000
Subject: [PATCH 090/126] fix: publishers that never said READY were registered
 as workers and sent a disconnect via the SUB socket

---
 src/majordomo/include/majordomo/Broker.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 0501845..25569b9 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -983,6 +983,10 @@ private:
             known = _workers.end();
         }
         const auto  knownWorker = known != _workers.end();
+        if (!knownWorker && message.command == mdp::Command::Notify) { // publisher only, e.g. via the SUB socket, which cannot be replied to
+            dispatchNotification(std::move(message));
+            return;
+        }
         auto       &worker      = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second;
 
         switch (message.command) {
@@ -1034,11 +1038,8 @@ private:
             break;
         }
         case mdp::Command::Notify: {
-            message.protocolName = mdp::clientProtocol;
-            message.command      = mdp::Command::Final;
-            message.serviceName  = worker.serviceName;
-
-            dispatchMessageToMatchingSubscribers(std::move(message));
+            message.serviceName = worker.serviceName;
+            dispatchNotification(std::move(message));
             break;
         }
         case mdp::Command::Heartbeat:
@@ -1052,6 +1053,13 @@ private:
         }
     }
 
+    void dispatchNotification(BrokerMessage &&message) {
+        message.protocolName = mdp::clientProtocol;
+        message.command      = mdp::Command::Final;
+
+        dispatchMessageToMatchingSubscribers(std::move(message));
+    }
+
     void deleteWorker(const Worker &worker) {
         auto serviceIt = _services.find(worker.serviceName);
         if (serviceIt != _services.end()) {
-- 
2.43.0


From d10cecc54ca30a63b1dc90120d3c436499ec06be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:36:50 +0000
Subject: [PATCH 091/126] fix: subscribing twice, or unsubscribing without a
 subscription, upset the subscriptions of other clients

---
 src/majordomo/include/majordomo/Broker.hpp | 44 +++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 25569b9..ec09622 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -584,6 +584,24 @@ private:
         }
     }
 
+    // subscriptions of a client count once, however often it subscribes, and only its own ones are undone by it
+    void subscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        if (_subscribedClientsByTopic[topic].emplace(clientId).second) {
+            subscribe(topic);
+        }
+    }
+
+    void unsubscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        auto it = _subscribedClientsByTopic.find(topic);
+        if (it == _subscribedClientsByTopic.end() || it->second.erase(clientId) == 0) {
+            return;
+        }
+        if (it->second.empty()) {
+            _subscribedClientsByTopic.erase(it);
+        }
+        unsubscribe(topic);
+    }
+
     bool receivePubMessage(const zmq::Socket &socket) {
         zmq::MessageFrame frame;
         const auto        result = frame.receive(socket, ZMQ_DONTWAIT);
@@ -632,9 +650,7 @@ private:
                 return;
             }
 
-            subscribe(subscription);
-            auto [it, inserted] = _subscribedClientsByTopic.try_emplace(subscription);
-            it->second.emplace(message.sourceId);
+            subscribeClient(subscription, message.sourceId);
         } break;
         case mdp::Command::Unsubscribe: {
             mdp::Topic subscription;
@@ -645,14 +661,7 @@ private:
                 return;
             }
 
-            unsubscribe(subscription);
-            auto it = _subscribedClientsByTopic.find(subscription);
-            if (it != _subscribedClientsByTopic.end()) {
-                it->second.erase(message.sourceId);
-                if (it->second.empty()) {
-                    _subscribedClientsByTopic.erase(it);
-                }
-            }
+            unsubscribeClient(subscription, message.sourceId);
         } break;
         default:
             break;
@@ -688,9 +697,7 @@ private:
                     return false;
                 }
 
-                subscribe(*subscription);
-                auto [it, inserted] = _subscribedClientsByTopic.try_emplace(*subscription);
-                it->second.emplace(message.sourceId);
+                subscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Unsubscribe: {
@@ -702,14 +709,7 @@ private:
                     return false;
                 }
 
-                unsubscribe(*subscription);
-                auto it = _subscribedClientsByTopic.find(*subscription);
-                if (it != _subscribedClientsByTopic.end()) {
-                    it->second.erase(message.sourceId);
-                    if (it->second.empty()) {
-                        _subscribedClientsByTopic.erase(it);
-                    }
-                }
+                unsubscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Heartbeat:
-- 
2.43.0


From 773327e43d88d059290ac352d4ca3d6447a27315 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 092/126] fix: topics with more than one SUB subscriber were
 never unsubscribed

XPUB_VERBOSE reports every subscription, but only the last unsubscription of a
topic, so that the subscription count of the broker could not return to zero
and the workers kept publishing.
---
 src/majordomo/include/majordomo/Broker.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index ec09622..c2ef28f 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -393,8 +393,6 @@ public:
         zmq::invoke(zmq_bind, _subSocket, INTERNAL_ADDRESS_SUBSCRIBE.str().data()).assertSuccess();
 
         zmq::initializeSocket(_pubSocket, settings).assertSuccess();
-        int verbose = 1;
-        zmq::invoke(zmq_setsockopt, _pubSocket, ZMQ_XPUB_VERBOSE, &verbose, sizeof(verbose)).assertSuccess();
         zmq::invoke(zmq_bind, _pubSocket, INTERNAL_ADDRESS_PUBLISHER.str().data()).assertSuccess();
 
         zmq::initializeSocket(_dnsSocket, settings).assertSuccess();
-- 
2.43.0


From 2b119f56f5fea614af4d5df9d129dac4f0fb4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:27 +0000
Subject: [PATCH 093/126] fix: requests for a service were given to another
 service whose name is a prefix of it

---
 src/majordomo/include/majordomo/Broker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c2ef28f..ab66d56 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -764,7 +764,7 @@ private:
             auto n  = removeSlash(name);
             auto sn = removeSlash(serviceName);
             if (!sn.starts_with(n)) continue;
-            if (!bestService || lessByLength(n, bestServiceName)) {
+            if (!bestService || lessByLength(bestServiceName, n)) { // the most specific one
                 bestServiceName = n;
                 bestService     = std::addressof(service);
             }
-- 
2.43.0


From 5e447820fe6d462f6796eb98abad9bbf6393153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 094/126] fix: floating-point query parameters lost all but six
 decimal places

---
 src/serialiser/include/QuerySerialiser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/QuerySerialiser.hpp b/src/serialiser/include/QuerySerialiser.hpp
index dfd1f6b..4358388 100644
--- a/src/serialiser/include/QuerySerialiser.hpp
+++ b/src/serialiser/include/QuerySerialiser.hpp
@@ -77,7 +77,11 @@ struct QuerySerialiser<T> {
     using FilterType = typename opencmw::NumberFilter<T>;
 
     inline static void serialise(QueryMap &m, const std::string &key, const T &value) {
-        m[key] = std::to_string(value);
+        if constexpr (std::floating_point<T>) {
+            m[key] = std::format("{}", value); // shortest text that gives the same value again
+        } else {
+            m[key] = std::to_string(value);
+        }
     }
 
     inline static void deserialise(const std::optional<std::string> &maybeStr, T &v) {
-- 
2.43.0


From beeb86cea267442eb1088202ebae5dde3779f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 095/126] fix: query parameters missing in a request left
 number fields uninitialised

---
 src/serialiser/include/QuerySerialiser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/QuerySerialiser.hpp b/src/serialiser/include/QuerySerialiser.hpp
index 4358388..165ecd9 100644
--- a/src/serialiser/include/QuerySerialiser.hpp
+++ b/src/serialiser/include/QuerySerialiser.hpp
@@ -131,7 +131,7 @@ struct QuerySerialiser<opencmw::MIME::MimeType> {
 
 template<ReflectableClass C, MapLike TMap>
 C deserialise(const TMap &m) {
-    C context;
+    C context = C(); // value-initialised, also what the map does not provide
 
     for_each(refl::reflect(context).members, [&](const auto member, [[maybe_unused]] const auto index) {
         if constexpr (is_field(member) && !is_static(member)) {
-- 
2.43.0


From 91b9617bb472bc3d37d40ee2a8a2fcb154269b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 096/126] fix: request and reply objects were uninitialised
 when the request had no body

---
 src/majordomo/include/majordomo/Worker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 8a7e757..058799e 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -422,7 +422,7 @@ private:
 namespace worker_detail {
 template<ReflectableClass I, typename Protocol>
 inline I deserialiseRequest(const mdp::Message &request) {
-    I input;
+    I input = I();
 
     if (!request.data.empty()) {
         IoBuffer   tmp(request.data);
@@ -554,7 +554,7 @@ struct HandlerImpl {
 
         const auto input = deserialiseRequest<InputType>(rawCtx);
 
-        OutputType output;
+        OutputType output = OutputType();
         _callback(rawCtx, requestCtx, input, replyCtx, output);
         try {
             writeResultFull(Worker::name, rawCtx, requestCtx, replyCtx, input, output);
-- 
2.43.0


From 278629f59a1737f04826fa4b8742fadb247c9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:23 +0000
Subject: [PATCH 097/126] fix: empty strings with a non-empty default were lost
 in query parameters

---
 src/serialiser/include/QuerySerialiser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/serialiser/include/QuerySerialiser.hpp b/src/serialiser/include/QuerySerialiser.hpp
index 165ecd9..4d23b62 100644
--- a/src/serialiser/include/QuerySerialiser.hpp
+++ b/src/serialiser/include/QuerySerialiser.hpp
@@ -48,6 +48,8 @@ struct QuerySerialiser<T> {
     inline static void deserialise(const std::optional<std::string> &maybeStr, T &v) {
         if (maybeStr) {
             v = *maybeStr;
+        } else {
+            v = T(); // "key=" and "key" are the same in a query
         }
     }
 };
-- 
2.43.0


From 73eb85f49ed798e4f53d0387e3ca92eaadf9a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:04 +0000
Subject: [PATCH 098/126] fix: numbers followed by other characters were
 rejected but stored all the same

---
 src/core/include/opencmw.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 3bbb4d7..553e3ab 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -779,8 +779,10 @@ inline constexpr void diffView(std::ostream &os, const T &lhs, const T &rhs) {
 
 template<typename T>
 static std::errc parseNumber(std::string_view str, T &number) {
-    const auto rc = std::from_chars(str.data(), str.data() + str.size(), number);
+    T          parsed = {}; // what does not parse as a whole leaves the number as it is
+    const auto rc     = std::from_chars(str.data(), str.data() + str.size(), parsed);
     if (rc.ptr == str.data() + str.size() && rc.ec == std::errc{}) {
+        number = parsed;
         return std::errc{};
     }
     return rc.ec == std::errc{} ? std::errc::invalid_argument : rc.ec;
-- 
2.43.0


From a3fe64f276372bfcde69138296fdd76de6101dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:20 +0000
Subject: [PATCH 099/126] fix: a notification with a malformed topic ended the
 worker

---
 src/majordomo/include/majordomo/Worker.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 058799e..9d4a9aa 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -279,7 +279,12 @@ private:
 
     bool receiveNotificationMessage() {
         if (auto message = zmq::receive<mdp::MessageFormat::WithoutSourceId>(_notifyListenerSocket)) {
-            const auto currentSubscription      = mdp::Topic::fromMdpTopic(message->topic);
+            mdp::Topic currentSubscription;
+            try {
+                currentSubscription = mdp::Topic::fromMdpTopic(message->topic);
+            } catch (...) {
+                return true; // malformed topic, nobody can have subscribed to it
+            }
 
             const auto matchesNotificationTopic = [this, &currentSubscription](const auto &activeSubscription) {
                 return _subscriptionMatcher(currentSubscription, activeSubscription);
-- 
2.43.0


From 16ded37e68245b28b4e231ab8c259ac7c63d52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:16 +0000
Subject: [PATCH 100/126] fix: subscriptions that ended while a worker
 reconnected stayed active forever

---
 src/majordomo/include/majordomo/Worker.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 9d4a9aa..992eff6 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -388,6 +388,10 @@ private:
         _pollerItems[1].socket = nullptr;
         _workerSocket.reset();
         _pubSocket.reset();
+        {
+            std::lock_guard lockGuard(_activeSubscriptionsLock);
+            _activeSubscriptions.clear(); // the new connection announces those that still exist
+        }
 
         _workerSocket.emplace(_context, ZMQ_DEALER);
 
-- 
2.43.0


From c03ef74cb0e5c2b0d2847f670310430057c7a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 101/126] fix: notifications were sent via handlers that the
 worker's thread might just remove

---
 src/majordomo/include/majordomo/Worker.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 992eff6..9fcc99b 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -141,7 +141,7 @@ public:
         message.command      = mdp::Command::Notify;
         message.serviceName  = serviceName.data(); // TODO unnecessary copy
         message.rbac         = _defaultRbacToken;
-        return notificationHandlerForThisThread().send(std::move(message));
+        return sendNotificationFromThisThread(std::move(message));
     }
 
     void disconnect() {
@@ -194,17 +194,18 @@ private:
         return std::format("inproc://workers{}-{}/notify", name, worker_detail::nextWorkerId());
     }
 
-    NotificationHandler &notificationHandlerForThisThread() {
+    bool sendNotificationFromThisThread(mdp::Message &&message) {
+        // N.B. the locks are held while sending: unused handlers may be removed at any other time
         const auto threadId = std::this_thread::get_id();
         {
             const std::shared_lock readLock(_notificationHandlersLock); // optimistic read -- thread is known/already initialised
-            if (_notificationHandlers.contains(threadId)) {
-                return _notificationHandlers.at(threadId);
+            if (const auto it = _notificationHandlers.find(threadId); it != _notificationHandlers.end()) {
+                return it->second.send(std::move(message));
             }
         }
         const std::unique_lock writeLock(_notificationHandlersLock); // nothing found -> need to allocate/initialise new socket
         _notificationHandlers.emplace(std::piecewise_construct, std::forward_as_tuple(threadId), std::forward_as_tuple(_context, _notifyAddress));
-        return _notificationHandlers.at(threadId);
+        return _notificationHandlers.at(threadId).send(std::move(message));
     }
 
     void cleanupNotificationHandlers() {
-- 
2.43.0


From 5bb0dbdab268621ffefe8a656edfa6d7c282b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 102/126] fix: files outside of the root directory were served
 for paths with '..', and overlong paths threw

---
 src/majordomo/include/majordomo/Rest.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index 8dfcab6..b53acf3 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -179,8 +179,11 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
             while (p.starts_with("/")) {
                 p.remove_prefix(1);
             }
-            auto file = root / p;
-            if (!std::filesystem::exists(file)) {
+            auto            file     = root / p;
+            const auto      relative = std::filesystem::path(p).lexically_normal();
+            const bool      escapes  = !relative.empty() && *relative.begin() == ".."; // nothing outside of root is served
+            std::error_code error;
+            if (escapes || !std::filesystem::exists(file, error)) {
                 Response response;
                 response.code = 404;
                 response.headers.emplace_back("content-type", "text/plain");
-- 
2.43.0


From b6c5ecd41ceab37e7b742ebbf38363b680f66243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 103/126] fix: a request for a directory ended the server with
 an exception

---
 src/majordomo/include/majordomo/Rest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index b53acf3..4735cc5 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -183,7 +183,7 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
             const auto      relative = std::filesystem::path(p).lexically_normal();
             const bool      escapes  = !relative.empty() && *relative.begin() == ".."; // nothing outside of root is served
             std::error_code error;
-            if (escapes || !std::filesystem::exists(file, error)) {
+            if (escapes || !std::filesystem::is_regular_file(file, error)) {
                 Response response;
                 response.code = 404;
                 response.headers.emplace_back("content-type", "text/plain");
-- 
2.43.0


From 8067035b4d23867598af9939805596b9449bf6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 104/126] fix: extra headers were missing for files large
 enough to be mapped

---
 src/majordomo/include/majordomo/Rest.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index 4735cc5..ae20553 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -210,7 +210,8 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
                 }
 
                 Response response;
-                response.code = 200;
+                response.code    = 200;
+                response.headers = extraHeaders;
                 response.headers.emplace_back("content-type", mimeTypeFromExtension(file.string()));
                 auto view = it->second.view();
                 response.headers.emplace_back("content-length", std::to_string(view.size()));
-- 
2.43.0


From 62045b5cc1029502770a48703d35d65c4832f6aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:02:12 +0000
Subject: [PATCH 105/126] fix: concurrent commits of a setting lost values, and
 a commit function that throws left a broken history

---
 src/disruptor/include/Transactions.hpp | 49 ++++++++++++++++----------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 607d586..d9b0fc8 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -7,6 +7,7 @@
 #include <concepts>
 #include <functional>
 #include <list>
+#include <mutex>
 #include <unordered_map>
 #include <utility>
 
@@ -99,6 +100,7 @@ requires(opencmw::is_power2_v<N_HISTORY> &&N_HISTORY > 8) class SettingBase {
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceHead = std::make_shared<Sequence>();
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceTail = std::make_shared<Sequence>(0);
     alignas(disruptor::kCacheLine) mutable ReaderWriterLock _historyLock{};
+    std::mutex _writerLock; // one writer at a time: a new setting is derived from the latest one
     alignas(disruptor::kCacheLine) mutable std::atomic<bool> _transactionListLock{ false };
     std::list<std::pair<TransactionToken, settings::node<T>>> _transactionList;
     alignas(disruptor::kCacheLine) const std::function<U(const U &, T &&)> _onCommit;
@@ -124,15 +126,7 @@ public:
 
     TransactionResult stage(T &&t, const TransactionToken &transactionToken = NullToken<TransactionToken>, const TimeStamp &now = std::chrono::system_clock::now()) {
         if (transactionToken.empty()) {
-            const auto isCommitted = _ringBuffer->tryPublishEvent([&t, this, &now](Node &&eventData, std::int64_t sequence) {
-                const auto oldValue  = get();
-                eventData.value      = std::make_shared<U>(_onCommit(*oldValue.value, FWD(t)));
-                eventData.validSince = now;
-                eventData.lastAccess = now;
-                _sequenceHead->setValue(sequence);
-            });
-            retireExpired();
-
+            const auto isCommitted = publish([&t, this](const U &oldValue) { return _onCommit(oldValue, FWD(t)); }, now);
             return { isCommitted, now };
         }
 
@@ -195,15 +189,7 @@ public:
     requires std::is_invocable_r_v<U, Fn &&, const U &>
     bool
     modifySetting(Fn &&modFunction, const TimeStamp &now = std::chrono::system_clock::now()) {
-        const auto result = _ringBuffer->tryPublishEvent([this, &modFunction, &now](Node &&eventData, std::int64_t sequence) {
-            const auto oldValue  = get();
-            eventData.value      = std::make_shared<U>(modFunction(*oldValue.value));
-            eventData.validSince = now;
-            eventData.lastAccess = now;
-            _sequenceHead->setValue(sequence);
-        });
-        retireExpired();
-        return result;
+        return publish(FWD(modFunction), now);
     }
 
     std::vector<TransactionToken> getPendingTransactions() const {
@@ -278,6 +264,13 @@ public:
     }
 
     void retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
+        retireExpiredTransactions(now);
+        std::lock_guard writerGuard(_writerLock);
+        retireExpiredSettings(now);
+    }
+
+private:
+    void retireExpiredTransactions(const TimeStamp &now) {
         if (timeOutTransactions > 0) {
             // time-out old transactions
             bool expected = false;
@@ -292,7 +285,27 @@ public:
             _transactionList.erase(first, last);
             std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         }
+    }
+
+    template<class Fn>
+    bool publish(Fn &&newValue, const TimeStamp &now) {
+        bool result = false;
+        {
+            std::lock_guard writerGuard(_writerLock);
+            auto            value = std::make_shared<U>(newValue(*get().value)); // may throw, i.e. before anything has been changed
+            result                = _ringBuffer->tryPublishEvent([this, &value, &now](Node &&eventData, std::int64_t sequence) {
+                eventData.value      = std::move(value);
+                eventData.validSince = now;
+                eventData.lastAccess = now;
+                _sequenceHead->setValue(sequence);
+            });
+            retireExpiredSettings(std::chrono::system_clock::now());
+        }
+        retireExpiredTransactions(std::chrono::system_clock::now());
+        return result;
+    }
 
+    void retireExpiredSettings(const TimeStamp &now) { // N.B. the caller holds the _writerLock
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
         // expire old settings based on count
         while (_sequenceTail->value() != _sequenceHead->value() && (_sequenceHead->value() - _sequenceTail->value() > static_cast<std::int64_t>(N_HISTORY - BUFFER_MARGIN))) {
-- 
2.43.0


From 9dd0f55032967e6b9e094a3b4ae02fcfbc65c24b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:03:18 +0000
Subject: [PATCH 106/126] fix: the list of staged transactions was not
 protected (inverted spin lock), and committing one could erase others while
 iterating

---
 src/disruptor/include/Transactions.hpp | 65 ++++++++------------------
 1 file changed, 20 insertions(+), 45 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index d9b0fc8..f00aec9 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -101,7 +101,7 @@ requires(opencmw::is_power2_v<N_HISTORY> &&N_HISTORY > 8) class SettingBase {
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceTail = std::make_shared<Sequence>(0);
     alignas(disruptor::kCacheLine) mutable ReaderWriterLock _historyLock{};
     std::mutex _writerLock; // one writer at a time: a new setting is derived from the latest one
-    alignas(disruptor::kCacheLine) mutable std::atomic<bool> _transactionListLock{ false };
+    alignas(disruptor::kCacheLine) mutable std::mutex _transactionListLock;
     std::list<std::pair<TransactionToken, settings::node<T>>> _transactionList;
     alignas(disruptor::kCacheLine) const std::function<U(const U &, T &&)> _onCommit;
 
@@ -130,9 +130,7 @@ public:
             return { isCommitted, now };
         }
 
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        std::unique_lock guard(_transactionListLock);
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         if (auto it = std::ranges::find_if(_transactionList, [&transactionToken](const auto &pair) { return pair.first == transactionToken; }); it != _transactionList.end()) {
 #else
@@ -142,7 +140,7 @@ public:
         } else {
             _transactionList.push_back(std::make_pair(transactionToken, settings::node<T>(FWD(t))));
         }
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
+        guard.unlock();
 
         retireExpired();
         return { false, now };
@@ -153,34 +151,20 @@ public:
     }
 
     TransactionResult commit(const TransactionToken &transactionToken, const TimeStamp &now = std::chrono::system_clock::now()) {
-        bool expected  = false;
-        bool submitted = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
-
-#if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
-        const auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
-            }
-            return false;
-        });
-#else
-        const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
+        decltype(_transactionList) toCommit; // committed without holding the lock, since this may also time-out other transactions
+        {
+            std::lock_guard guard(_transactionListLock);
+            for (auto it = _transactionList.begin(); it != _transactionList.end();) {
+                const auto setting = it++;
+                if (transactionToken == NullToken<TransactionToken> || setting->first == transactionToken) {
+                    toCommit.splice(toCommit.end(), _transactionList, setting);
+                }
             }
-            return false;
-        });
-        const auto last  = _transactionList.end();
-#endif
-
-        _transactionList.erase(first, last);
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
+        }
+        bool submitted = false;
+        for (auto &setting : toCommit) {
+            submitted |= commit(std::move(*setting.second.value), now).isCommitted;
+        }
 
         return { submitted, now };
     }
@@ -194,16 +178,13 @@ public:
 
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
-        bool                          expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        std::lock_guard               guard(_transactionListLock);
         result.reserve(_transactionList.size());
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         std::ranges::transform(_transactionList, std::back_inserter(result), [](const auto &setting) { return setting.first; });
 #else
         std::transform(_transactionList.begin(), _transactionList.end(), std::back_inserter(result), [](const auto &setting) { return setting.first; });
 #endif
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         return result;
     }
 
@@ -234,10 +215,8 @@ public:
     }
 
     bool retireStaged(const TransactionToken &transactionToken = NullToken<TransactionToken>) {
-        bool retired  = false;
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        bool            retired = false;
+        std::lock_guard guard(_transactionListLock);
 
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &retired, this](const auto &setting) {
@@ -258,7 +237,6 @@ public:
         auto last  = _transactionList.end();
 #endif
         _transactionList.erase(first, last);
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
 
         return retired;
     }
@@ -273,9 +251,7 @@ private:
     void retireExpiredTransactions(const TimeStamp &now) {
         if (timeOutTransactions > 0) {
             // time-out old transactions
-            bool expected = false;
-            while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-                ;
+            std::lock_guard guard(_transactionListLock);
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
             const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
 #else
@@ -283,7 +259,6 @@ private:
             const auto last  = _transactionList.end();
 #endif
             _transactionList.erase(first, last);
-            std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         }
     }
 
-- 
2.43.0


From ebbbbb22615d5d25fd4653dba167042a29934237 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:03:18 +0000
Subject: [PATCH 107/126] fix: setting look-ups by time and the history size
 used positions read without holding the history lock

---
 src/disruptor/include/Transactions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index f00aec9..de76197 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -119,7 +119,7 @@ public:
         _ringBuffer->addGatingSequences(std::vector{ _sequenceHead, _sequenceTail });
     }
     [[nodiscard]] std::size_t nHistory() const noexcept {
-        _historyLock.scopedGuard<ReaderWriterLockType::READ>();
+        auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>();
         return static_cast<std::size_t>(_sequenceHead->value() - _sequenceTail->value() + 1);
     }
     ReaderWriterLock &historyLock() noexcept { return _historyLock; }
@@ -189,8 +189,8 @@ public:
     }
 
     [[nodiscard]] Node get(const TimeStamp &timeStamp) const {
-        auto lHead = _sequenceHead->value();
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>(); // to prevent the writer/clean-up task to potentially expire a node at the tail
+        auto lHead = _sequenceHead->value();
         while ((*_ringBuffer)[lHead].validSince > timeStamp && lHead != _sequenceTail->value()) {
             lHead--;
         }
-- 
2.43.0


From 1001372f7b78c9e54f2f184716e8f02c282ed775 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:03:18 +0000
Subject: [PATCH 108/126] fix: settings that were still in use were retired if
 a later one had expired

---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index de76197..38948c2 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -293,7 +293,7 @@ private:
                 if ((*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
                     tailPosition = _sequenceTail->incrementAndGet();
                 } else {
-                    tailPosition++;
+                    break; // N.B. still in use, and so are the later ones part of its history
                 }
             }
         }
-- 
2.43.0


From 05f3bd1cc248f5a8a575689e0f14ca36ede2ada0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:03:18 +0000
Subject: [PATCH 109/126] fix: results of context settings referred to nodes
 that had been destroyed

---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 38948c2..4527a57 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -48,7 +48,7 @@ struct TransactionResult {
 template<typename T>
 struct CtxResult {
     const TimingCtx           timingCtx;
-    const settings::node<T>  &settingValue;
+    const settings::node<T>   settingValue;
 
     explicit(false) constexpr operator TimingCtx const &() const noexcept { return timingCtx; }
     explicit(false) constexpr operator T const &() const noexcept { return settingValue; }
-- 
2.43.0


From b190346dd2bf56284f54f82bfec4dce52814ef46 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:03:18 +0000
Subject: [PATCH 110/126] fix: context settings without time-out were all
 retired, and expiry modified values that had been handed out

---
 src/disruptor/include/Transactions.hpp | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 4527a57..0ffc497 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -176,6 +176,16 @@ public:
         return publish(FWD(modFunction), now);
     }
 
+    template<class Fn>
+    requires std::is_invocable_r_v<U, Fn &&, const U &>
+    void
+    replaceLatest(Fn &&modFunction) { // in place, i.e. without adding to the history
+        std::lock_guard writerGuard(_writerLock);
+        auto            value = std::make_shared<U>(modFunction(*get().value));
+        auto            guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
+        (*_ringBuffer)[_sequenceHead->value()].value = std::move(value); // N.B. values that were already handed out are not modified
+    }
+
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
         std::lock_guard               guard(_transactionListLock);
@@ -394,9 +404,14 @@ public:
     [[nodiscard]] std::size_t                   nCtxHistory(const std::int64_t idx = 0) const { return _setting.get(idx).value->size(); }
     [[nodiscard]] std::vector<TransactionToken> getPendingTransactions() const { return _setting.getPendingTransactions(); }
     void                                        retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
-        _setting.historyLock().template scopedGuard<ReaderWriterLockType::WRITE>();
         _setting.retireExpired(now);
-        retireOldSettings(*_setting.get().value, now);
+        if constexpr (timeOut > 0) {
+            _setting.replaceLatest([&now](const auto &settingsMap) {
+                auto newMap = settingsMap;
+                std::erase_if(newMap, [&now](const auto &pair) { return pair.second.lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }; });
+                return newMap;
+            });
+        }
     }
     template<bool exactMatch = false>
     [[maybe_unused]] bool retire(const TimingCtx &ctx, const TimeStamp &now = std::chrono::system_clock::now()) {
@@ -452,16 +467,6 @@ private:
         }
         return { NullTimingCtx, settings::node<T>(T{}) }; // implicitly stored non-multiplexed value
     }
-
-    void retireOldSettings(auto &settingsMap, const TimeStamp &now = std::chrono::system_clock::now()) const noexcept {
-        for (auto it = settingsMap.begin(); it != settingsMap.end();) {
-            if (it->second.lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
-                it = settingsMap.erase(it);
-            } else {
-                ++it;
-            }
-        }
-    }
 };
 
 } // namespace opencmw
-- 
2.43.0


From 04c3643fb26e230f67ae9e5e700e9123994ae095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:04 +0000
Subject: [PATCH 111/126] fix: a thread pool that had been shut down terminated
 the process when destroyed

---
 src/core/include/ThreadPool.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 4997002..aa43613 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -264,7 +264,9 @@ public:
         _shutdown = true;
         _condition.notify_all();
         for (auto &t : _threads) {
-            t.join();
+            if (t.joinable()) {
+                t.join();
+            }
         }
     }
 
@@ -287,7 +289,9 @@ public:
         _shutdown = true;
         _condition.notify_all();
         for (auto &t : _threads) {
-            t.join();
+            if (t.joinable()) {
+                t.join();
+            }
         }
     }
     [[nodiscard]] bool isShutdown() const { return _shutdown; }
-- 
2.43.0


From fc547986e4970cb8a2aa34f202bbe6c0bf6fc96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:04 +0000
Subject: [PATCH 112/126] fix: the CPU affinity of a thread pool was applied to
 the calling thread, and could be empty

---
 src/core/include/ThreadPool.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index aa43613..9e60966 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -392,12 +392,12 @@ private:
         thread::setThreadSchedulingParameter(_schedulingPolicy, _schedulingPriority, thread);
         if (!_affinityMask.empty()) {
             if (taskType == TaskType::IO_BOUND) {
-                thread::setThreadAffinity(_affinityMask);
+                thread::setThreadAffinity(_affinityMask, thread);
                 return;
             }
             const std::vector<bool> affinityMask = distributeThreadAffinityAcrossCores(_affinityMask, threadID);
             std::cout << std::format("{}#{} affinity mask: {}", _poolName, threadID, opencmw::join(affinityMask, ",")) << std::endl;
-            thread::setThreadAffinity(affinityMask);
+            thread::setThreadAffinity(affinityMask, thread);
         }
     }
 
@@ -406,10 +406,12 @@ private:
             return {};
         }
         std::vector<bool> affinityMask;
+        const auto        nCores    = static_cast<std::size_t>(std::count(globalAffinityMask.begin(), globalAffinityMask.end(), true));
         std::size_t       coreCount = 0;
         for (bool value : globalAffinityMask) {
             if (value) {
-                affinityMask.push_back(coreCount++ % _minThreads == threadID);
+                affinityMask.push_back(nCores < _minThreads ? threadID % nCores == coreCount : coreCount % _minThreads == threadID % _minThreads);
+                ++coreCount;
             } else {
                 affinityMask.push_back(false);
             }
@@ -419,9 +421,9 @@ private:
 
     void createWorkerThread() {
         std::scoped_lock  lock(_threadListMutex);
-        const std::size_t nThreads = numThreads();
+        const std::size_t threadID = _threads.size();
         std::thread      &thread   = _threads.emplace_back(&BasicThreadPool::worker, this);
-        updateThreadConstraints(nThreads + 1, thread);
+        updateThreadConstraints(threadID, thread);
     }
 
     template<const basic_fixed_string taskName = "", uint32_t priority = 0, int32_t cpuID = -1, std::invocable Callable, typename... Args>
-- 
2.43.0


From ff00f4a7c22d618e6df349ca7df0e750e1189d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:04 +0000
Subject: [PATCH 113/126] fix: tasks and the shutdown of a thread pool could be
 delayed by 10 seconds (lost wake-up, data race on the shutdown flag)

---
 src/core/include/ThreadPool.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 9e60966..544b674 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -227,8 +227,9 @@ class BasicThreadPool {
     static std::string           generateName() { return std::format("BasicThreadPool#{}", _globalPoolId.fetch_add(1)); }
 
     std::atomic<bool>            _initialised = ATOMIC_FLAG_INIT;
-    bool                         _shutdown    = false;
+    std::atomic<bool>            _shutdown    = false;
 
+    std::mutex                   _conditionMutex;
     std::condition_variable      _condition;
     std::atomic<std::size_t>     _numTaskedQueued = 0U; // cache for _taskQueue.size()
     std::atomic<std::size_t>     _numTasksRunning = 0U;
@@ -261,7 +262,10 @@ public:
     }
 
     ~BasicThreadPool() {
-        _shutdown = true;
+        {
+            std::scoped_lock lock(_conditionMutex); // N.B. otherwise a worker that is about to sleep could miss the notification
+            _shutdown = true;
+        }
         _condition.notify_all();
         for (auto &t : _threads) {
             if (t.joinable()) {
@@ -286,7 +290,10 @@ public:
     [[nodiscard]] bool        isInitialised() const { return _initialised.load(std::memory_order::acquire); }
     void                      waitUntilInitialised() const { _initialised.wait(false); }
     void                      requestShutdown() {
-        _shutdown = true;
+        {
+            std::scoped_lock lock(_conditionMutex); // N.B. otherwise a worker that is about to sleep could miss the notification
+            _shutdown = true;
+        }
         _condition.notify_all();
         for (auto &t : _threads) {
             if (t.joinable()) {
@@ -332,6 +339,7 @@ public:
         _numTaskedQueued.fetch_add(1U);
 
         _taskQueue.push(createTask<taskName, priority, cpuID>(FWD(func), FWD(args)...));
+        { std::scoped_lock lock(_conditionMutex); } // N.B. otherwise a worker that is about to sleep could miss the notification
         _condition.notify_one();
         if constexpr (taskType == TaskType::IO_BOUND) {
             spinWait.spinOnce();
@@ -472,8 +480,6 @@ private:
         constexpr uint32_t N_SPIN       = 1 << 8;
         uint32_t           noop_counter = 0;
         const auto         threadID     = _numThreads.fetch_add(1);
-        std::mutex         mutex;
-        std::unique_lock   lock(mutex);
         auto               lastUsed = std::chrono::steady_clock::now();
         if (numThreads() >= _minThreads) {
             std::atomic_store_explicit(&_initialised, true, std::memory_order_release);
@@ -506,6 +512,7 @@ private:
                 noop_counter = noop_counter / 2;
                 cleanupFinishedThreads();
 
+                std::unique_lock lock(_conditionMutex);
                 _condition.wait_for(lock, keepAliveDuration, [this] { return numTasksQueued() > 0 || isShutdown(); });
             }
             // check if this thread is to be kept
-- 
2.43.0


From db5d6354610435a99608a23b8234c7afae137732 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 114/126] fix: a client request that cannot be sent terminated
 the process

---
 src/client/include/Client.hpp        | 68 ++++++++++++++++++++--------
 src/client/include/ClientContext.hpp | 24 ++++++++--
 2 files changed, 69 insertions(+), 23 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 87e383a..2012620 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -79,8 +79,8 @@ public:
         std::string zmq_ep = mdp::toZeroMQEndpoint(ep);
         if (opencmw::zmq::invoke(zmq_connect, con._socket, zmq_ep).isValid()) {
             _pollItems.push_back({ .socket = con._socket.zmq_ptr, .fd = 0, .events = ZMQ_POLLIN, .revents = 0 });
+            con._connectionState = ConnectionState::CONNECTED;
         }
-        con._connectionState = ConnectionState::CONNECTED;
     }
 
     detail::Connection &findConnection(const URI<STRICT> &uri) {
@@ -94,27 +94,35 @@ public:
         return *con;
     }
 
+    const detail::Connection &connectedTo(const URI<STRICT> &uri) {
+        const auto &con = findConnection(uri);
+        if (con._connectionState != detail::ConnectionState::CONNECTED) {
+            throw std::runtime_error(std::format("not connected to '{}'", con._authority));
+        }
+        return con;
+    }
+
     void get(const URI<STRICT> &uri, std::string_view req_id) override {
-        const auto &con     = findConnection(uri);
+        const auto &con     = connectedTo(uri);
         auto        message = createRequestTemplate(mdp::Command::Get, uri, req_id);
         zmq::send(std::move(message), con._socket).assertSuccess();
     }
 
     void set(const URI<STRICT> &uri, std::string_view req_id, const std::span<const std::byte> &request) override {
-        const auto &con     = findConnection(uri);
+        const auto &con     = connectedTo(uri);
         auto        message = createRequestTemplate(mdp::Command::Set, uri, req_id);
         message.data        = IoBuffer(reinterpret_cast<const char *>(request.data()), request.size());
         zmq::send(std::move(message), con._socket).assertSuccess();
     }
 
     void subscribe(const URI<STRICT> &uri, std::string_view req_id) override {
-        const auto &con     = findConnection(uri);
+        const auto &con     = connectedTo(uri);
         auto        message = createRequestTemplate(mdp::Command::Subscribe, uri, req_id);
         zmq::send(std::move(message), con._socket).assertSuccess();
     }
 
     void unsubscribe(const URI<STRICT> &uri, std::string_view req_id) override {
-        const auto &con     = findConnection(uri);
+        const auto &con     = connectedTo(uri);
         auto        message = createRequestTemplate(mdp::Command::Unsubscribe, uri, req_id);
         zmq::send(std::move(message), con._socket).assertSuccess();
     }
@@ -428,28 +436,48 @@ private:
             if (!endpoint.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
                 throw std::logic_error("invalid request received: invalid message contents");
             }
-            URI<STRICT> uri{ std::string(endpoint.data()) };
-            auto       &client = getClient(uri);
+            zmq::MessageFrame data;
             if (cmd.data().size() != 1) {
                 throw std::logic_error("invalid request received: wrong number of frames");
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Get)) {
-                client->get(uri, reqId.data());
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Set)) {
-                zmq::MessageFrame data;
-                if (!data.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
-                    throw std::logic_error("missing set str");
+            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Set) && !data.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
+                throw std::logic_error("missing set str");
+            }
+            URI<STRICT> uri{ std::string(endpoint.data()) };
+            try {
+                auto &client = getClient(uri);
+                if (cmd.data()[0] == static_cast<char>(mdp::Command::Get)) {
+                    client->get(uri, reqId.data());
+                } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Set)) {
+                    client->set(uri, reqId.data(), as_bytes(std::span(data.data().data(), data.data().size())));
+                } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Subscribe)) {
+                    client->subscribe(uri, reqId.data());
+                } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Unsubscribe)) {
+                    client->unsubscribe(uri, reqId.data());
+                } else {
+                    throw std::logic_error("invalid request received"); // messages always consist of 2 frames
                 }
-                client->set(uri, reqId.data(), as_bytes(std::span(data.data().data(), data.data().size())));
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Subscribe)) {
-                client->subscribe(uri, reqId.data());
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Unsubscribe)) {
-                client->unsubscribe(uri, reqId.data());
-            } else {
-                throw std::logic_error("invalid request received"); // messages always consist of 2 frames
+            } catch (const std::exception &e) {
+                requestFailed(uri, reqId.data(), e.what());
             }
         }
     }
 
+    // requests which cannot be sent are answered with an error
+    void requestFailed(const URI<STRICT> &uri, std::string_view reqId, std::string_view error) {
+        std::print("failed to send request to '{}': {}\n", uri.str(), error);
+        mdp::Message reply;
+        reply.protocolName    = mdp::clientProtocol;
+        reply.command         = mdp::Command::Final;
+        reply.arrivalTime     = std::chrono::system_clock::now();
+        reply.clientRequestID = IoBuffer(reqId.data(), reqId.size());
+        reply.topic           = uri;
+        reply.error           = error;
+        std::from_chars(reqId.data(), reqId.data() + reqId.size(), reply.id);
+        if (auto request = _requests.extract(reply.id)) {
+            request.mapped().callback(reply);
+        }
+    }
+
     void poll(const std::stop_token &stoken) {
         auto nextHousekeeping = std::chrono::system_clock::now();
         zmq::invoke(zmq_connect, _control_socket_recv, "inproc://mdclientControlSocket").assertSuccess();
diff --git a/src/client/include/ClientContext.hpp b/src/client/include/ClientContext.hpp
index 0e917a3..013e60c 100644
--- a/src/client/include/ClientContext.hpp
+++ b/src/client/include/ClientContext.hpp
@@ -87,12 +87,11 @@ private:
                 if (cmd.command == mdp::Command::Invalid) {
                     return false;
                 }
-                auto &c = getClientCtx(cmd.topic);
 #ifdef EMSCRIPTEN
                 // this is necessary for fetches to actually be called, as the new thread will start/init/end and then go into js runtime to fetch
-                std::thread ql{ [&c, cmd]() {
+                std::thread ql{ [this, &cmd]() {
 #endif
-                    c.request(cmd);
+                    dispatch(cmd);
 #ifdef EMSCRIPTEN
                 } };
                 ql.join();
@@ -102,6 +101,25 @@ private:
         }
     }
 
+    // requests which cannot be sent are answered with an error
+    void dispatch(const Command &cmd) {
+        try {
+            getClientCtx(cmd.topic).request(cmd);
+        } catch (const std::exception &e) {
+            if (!cmd.callback) {
+                std::print("failed to send request to '{}': {}\n", cmd.topic.str(), e.what());
+                return;
+            }
+            mdp::Message reply;
+            reply.protocolName = mdp::clientProtocol;
+            reply.command      = mdp::Command::Final;
+            reply.arrivalTime  = std::chrono::system_clock::now();
+            reply.topic        = cmd.topic;
+            reply.error        = e.what();
+            cmd.callback(reply);
+        }
+    }
+
     ClientBase &getClientCtx(const URI<STRICT> &uri) {
         if (_schemeContexts.contains(uri.scheme().value())) {
             return _schemeContexts.at(uri.scheme().value());
-- 
2.43.0


From 648c5ea1dde543b6d79cc943554b8955a7310fac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 115/126] fix: notifications and messages with a malformed
 request id answered the first request of a client

---
 src/client/include/Client.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 2012620..1dfcbaa 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -144,7 +144,7 @@ public:
         if (message.command == mdp::Command::Notify || message.command == mdp::Command::Final) {
             message.arrivalTime     = std::chrono::system_clock::now();
             const auto requestId_sv = message.clientRequestID.asString();
-            if (auto result = std::from_chars(requestId_sv.data(), requestId_sv.data() + requestId_sv.size(), message.id); result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range) {
+            if (auto result = std::from_chars(requestId_sv.data(), requestId_sv.data() + requestId_sv.size(), message.id); result.ec != std::errc{} || result.ptr != requestId_sv.data() + requestId_sv.size()) {
                 message.id = 0;
             }
             return true;
@@ -353,7 +353,7 @@ class MDClientCtx : public ClientBase {
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
-    std::size_t                                                    _request_id = 0;
+    std::size_t                                                    _request_id = 1; // N.B. '0' stands for messages that do not belong to a request
 
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
-- 
2.43.0


From ddca9b92dc84f9379f2bcfb054846df5bdea5fa2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:14:52 +0000
Subject: [PATCH 116/126] fix: client subscriptions to the same topic of
 several servers, or after an unsubscription, kept calling the first callback

---
 src/client/include/Client.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 1dfcbaa..8aa4fcb 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -367,8 +367,12 @@ public:
         return { "mdp", "mdp+tcp", "mdp+inproc", "mds", "mds+tcp", "mds+inproc" }; // majordomo protocol and subscription protocol, if transport is unspecified, tcp is used if authority contains a port
     }
 
+    static URI<STRICT> getBaseUri(const URI<STRICT> &uri) {
+        return URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build();
+    }
+
     std::unique_ptr<MDClientBase> &getClient(const URI<STRICT> &uri) {
-        auto baseUri = URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build();
+        auto baseUri = getBaseUri(uri);
         if (_clients.contains(baseUri)) {
             return _clients.at(baseUri);
         }
@@ -402,15 +406,21 @@ public:
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
-                _subscriptions.insert({ mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic(), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
-            } else if (cmd.command == mdp::Command::Unsubscribe) {
-                _requests.erase(0); // todo: lookup correct subscription
+                _subscriptions.insert({ subscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             }
         }
+        if (cmd.command == mdp::Command::Unsubscribe) {
+            _subscriptions.erase(subscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
+        }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
     }
 
 private:
+    // N.B. different servers may provide the same topic
+    static std::string subscriptionKey(const URI<STRICT> &baseUri, std::string_view zmqTopic) {
+        return std::format("{}{}", baseUri.str(), zmqTopic);
+    }
+
     void sendCmd(const URI<STRICT> &uri, mdp::Command commandType, std::size_t req_id, IoBuffer data = {}) const {
         const bool        isSet = commandType == mdp::Command::Set;
         zmq::MessageFrame cmdType{ std::string{ static_cast<char>(commandType) } };
@@ -490,8 +500,8 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (_subscriptions.contains(receivedEvent.serviceName)) {
-                        _subscriptions.at(receivedEvent.serviceName).callback(receivedEvent); // callback
+                    if (auto subscription = _subscriptions.find(subscriptionKey(uri, receivedEvent.serviceName)); subscription != _subscriptions.end()) {
+                        subscription->second.callback(receivedEvent); // callback
                     }
                     if (_requests.contains(receivedEvent.id)) {
                         _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-- 
2.43.0


From 0f6370b8744b4bb26ff225cbe311d1689b57ca5d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:17:22 +0000
Subject: [PATCH 117/126] fix: a message that is no notification repeated the
 previous notification of a subscription

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 8aa4fcb..54b02d5 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -296,7 +296,7 @@ public:
             output.id              = 0; // review if this is still needed
             return true;
         }
-        return true;
+        return false;
     }
 
     bool receive(mdp::Message &msg) override {
-- 
2.43.0


From fc80218096101729cf0f2af4c3e53cab03eade44 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:21:22 +0000
Subject: [PATCH 118/126] fix: the client dispatched only one request per 16
 ms, and lost those that queued up meanwhile

---
 src/client/include/ClientContext.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/include/ClientContext.hpp b/src/client/include/ClientContext.hpp
index 013e60c..de904b3 100644
--- a/src/client/include/ClientContext.hpp
+++ b/src/client/include/ClientContext.hpp
@@ -85,7 +85,7 @@ private:
             std::this_thread::sleep_for(16ms);
             _cmdPoller->poll([this](Command &cmd, std::int64_t /*sequenceID*/, bool /*endOfBatch*/) -> bool {
                 if (cmd.command == mdp::Command::Invalid) {
-                    return false;
+                    return true;
                 }
 #ifdef EMSCRIPTEN
                 // this is necessary for fetches to actually be called, as the new thread will start/init/end and then go into js runtime to fetch
@@ -96,7 +96,7 @@ private:
                 } };
                 ql.join();
 #endif
-                return false;
+                return true; // continue with the next command
             });
         }
     }
-- 
2.43.0


From 9a13f71d08f401f41d2f02e220b1d188a5d0d886 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:23:27 +0000
Subject: [PATCH 119/126] fix: data races between the threads of the client,
 and use of its members while they were destroyed

---
 src/client/include/Client.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 54b02d5..fd4f60a 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <ClientContext.hpp>
 #include <MdpMessage.hpp>
+#include <mutex>
 #include <opencmw.hpp>
 #include <Topic.hpp>
 #include <URI.hpp>
@@ -347,20 +348,21 @@ class MDClientCtx : public ClientBase {
     const zmq::Context                                            &_zctx;
     zmq::Socket                                                    _control_socket_send;
     zmq::Socket                                                    _control_socket_recv;
-    std::jthread                                                   _poller;
     std::vector<zmq_pollitem_t>                                    _pollitems{};
+    std::mutex                                                     _mutex; // guards _requests and _subscriptions
     std::unordered_map<std::size_t, Request>                       _requests;
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
     std::size_t                                                    _request_id = 1; // N.B. '0' stands for messages that do not belong to a request
+    std::jthread                                                   _poller; // N.B. uses the other members
 
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
         : _zctx{ zeromq_context }, _control_socket_send(zeromq_context, ZMQ_PAIR), _control_socket_recv(zeromq_context, ZMQ_PAIR), _timeout(timeout), _clientId(std::move(clientId)) {
-        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); });
         zmq::invoke(zmq_bind, _control_socket_send, "inproc://mdclientControlSocket").assertSuccess();
         _pollitems.push_back({ .socket = _control_socket_recv.zmq_ptr, .fd = 0, .events = ZMQ_POLLIN, .revents = 0 });
+        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); });
     }
 
     std::vector<std::string> protocols() override {
@@ -403,13 +405,16 @@ public:
         if (cmd.callback) {
             if (cmd.command == mdp::Command::Get || cmd.command == mdp::Command::Set) {
                 req_id = _request_id++;
+                std::lock_guard lock(_mutex);
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
+                std::lock_guard lock(_mutex);
                 _subscriptions.insert({ subscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             }
         }
         if (cmd.command == mdp::Command::Unsubscribe) {
+            std::lock_guard lock(_mutex);
             _subscriptions.erase(subscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
         }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
@@ -472,6 +477,17 @@ private:
         }
     }
 
+    auto takeRequest(std::size_t id) {
+        std::lock_guard lock(_mutex);
+        return _requests.extract(id);
+    }
+
+    auto findSubscriptionCallback(const std::string &key) {
+        std::lock_guard lock(_mutex);
+        const auto      it = _subscriptions.find(key);
+        return it == _subscriptions.end() ? decltype(Subscription::callback){} : it->second.callback;
+    }
+
     // requests which cannot be sent are answered with an error
     void requestFailed(const URI<STRICT> &uri, std::string_view reqId, std::string_view error) {
         std::print("failed to send request to '{}': {}\n", uri.str(), error);
@@ -483,7 +499,7 @@ private:
         reply.topic           = uri;
         reply.error           = error;
         std::from_chars(reqId.data(), reqId.data() + reqId.size(), reply.id);
-        if (auto request = _requests.extract(reply.id)) {
+        if (auto request = takeRequest(reply.id)) {
             request.mapped().callback(reply);
         }
     }
@@ -500,12 +516,11 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (auto subscription = _subscriptions.find(subscriptionKey(uri, receivedEvent.serviceName)); subscription != _subscriptions.end()) {
-                        subscription->second.callback(receivedEvent); // callback
+                    if (auto callback = findSubscriptionCallback(subscriptionKey(uri, receivedEvent.serviceName))) {
+                        callback(receivedEvent);
                     }
-                    if (_requests.contains(receivedEvent.id)) {
-                        _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-                        _requests.erase(receivedEvent.id);
+                    if (auto request = takeRequest(receivedEvent.id)) {
+                        request.mapped().callback(receivedEvent); // callback
                     }
                     // perform housekeeping duties if necessary
                     if (auto now = std::chrono::system_clock::now(); nextHousekeeping < now) {
-- 
2.43.0


From 9fa5ff6af8e0a302816cdf776656776ac0f70dac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 120/126] fix: registering a signal without a rate again added
 it a second time (NaN compared unequal)

---
 src/services/include/services/dns_types.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 0eb191c..04b73bf 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -1,8 +1,10 @@
 #ifndef DNS_TYPES_HPP
 #define DNS_TYPES_HPP
 
+#include <cmath>
 #include <MIME.hpp>
 #include <opencmw.hpp>
+#include <tuple>
 
 namespace opencmw::service::dns {
 
@@ -18,7 +20,10 @@ struct Entry {
     float       signal_rate{ std::numeric_limits<float>::quiet_NaN() };
     std::string signal_type;
 
-    bool        operator==(const Entry &b) const = default;
+    bool        operator==(const Entry &b) const noexcept {
+        const bool sameRate = signal_rate == b.signal_rate || (std::isnan(signal_rate) && std::isnan(b.signal_rate)); // N.B. NaN: unspecified rate
+        return sameRate && std::tie(protocol, hostname, port, service_name, service_type, signal_name, signal_unit, signal_type) == std::tie(b.protocol, b.hostname, b.port, b.service_name, b.service_type, b.signal_name, b.signal_unit, b.signal_type);
+    }
 };
 
 struct QueryEntry : Entry {
-- 
2.43.0


From 73eeb27e2499ee0855fb6c8c53ad71d35e979328 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 121/126] fix: querying and removing signals ignored the unit

---
 src/services/include/services/dns_types.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 04b73bf..82654b3 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -37,6 +37,7 @@ struct QueryEntry : Entry {
                         check_string(service_name)
                                 check_string(service_type)
                                         check_string(signal_name)
+                                                check_string(signal_unit)
                                                 check_string(signal_type)
 #undef check_string
                                                         if (port != -1 && port != entry.port) return false;
-- 
2.43.0


From d10b0828567de10ffe26a000e0d2b6f10e8455fb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 122/126] fix: a registration with lists of different lengths
 aborted the DNS service or was read out of bounds

---
 src/services/include/services/dns_types.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 82654b3..2e8ad24 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -4,6 +4,7 @@
 #include <cmath>
 #include <MIME.hpp>
 #include <opencmw.hpp>
+#include <stdexcept>
 #include <tuple>
 
 namespace opencmw::service::dns {
@@ -86,14 +87,16 @@ struct FlatEntryList {
     template<typename EntryType = Entry>
     [[nodiscard]] std::vector<EntryType> toEntries() const {
         const std::size_t size = protocol.size();
-        assert(hostname.size() == size
-                && port.size() == size
-                && service_name.size() == size
-                && service_type.size() == size
-                && signal_name.size() == size
-                && signal_unit.size() == size
-                && signal_rate.size() == size
-                && signal_type.size() == size);
+        if (hostname.size() != size
+                || port.size() != size
+                || service_name.size() != size
+                || service_type.size() != size
+                || signal_name.size() != size
+                || signal_unit.size() != size
+                || signal_rate.size() != size
+                || signal_type.size() != size) { // e.g. received from a client
+            throw std::invalid_argument("FlatEntryList: fields have different numbers of entries");
+        }
 
         std::vector<EntryType> res;
         res.reserve(size);
-- 
2.43.0


From eebb753f54a30dec1bd83e6c79af8ee62c5fbe0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 123/126] fix: querySignals ignored protocol, host, port and
 service type, and rounded the rate

---
 src/services/include/services/dns.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns.hpp b/src/services/include/services/dns.hpp
index cfa629e..bc26770 100644
--- a/src/services/include/services/dns.hpp
+++ b/src/services/include/services/dns.hpp
@@ -11,6 +11,7 @@
 
 #include <majordomo/Worker.hpp>
 #include <MIME.hpp>
+#include <QuerySerialiser.hpp>
 namespace opencmw::service::dns {
 
 using DnsWorkerType = majordomo::Worker<"/dns", Context, FlatEntryList, FlatEntryList, majordomo::description<"Register and Query Signals">>;
@@ -62,7 +63,7 @@ inline std::vector<Entry> querySignals(const Entry &a = {}, std::string scheme_h
     client::Command cmd;
     cmd.command     = mdp::Command::Get;
     cmd.serviceName = "/dns";
-    cmd.topic       = URI<>::UriFactory{ URI<>(std::move(scheme_host_port)) }.path("/dns").addQueryParameter("service_name", a.service_name).addQueryParameter("signal_name", a.signal_name).addQueryParameter("signal_unit", a.signal_unit).addQueryParameter("signal_rate", std::to_string(a.signal_rate)).addQueryParameter("signal_type", a.signal_type).build();
+    cmd.topic       = URI<>::UriFactory{ URI<>(std::move(scheme_host_port)) }.path("/dns").setQuery(query::serialise(a)).build();
 
     client::RestClient  client{ client::DefaultContentTypeHeader(MIME::BINARY) };
     auto                reply = client.blockingRequest(std::move(cmd));
-- 
2.43.0


From b779fcdb8462d2de32043f0de2c7246ba5249719 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 124/126] fix: expired and replaced DNS entries came back to
 life after a restart

---
 src/services/include/services/dns_storage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_storage.hpp b/src/services/include/services/dns_storage.hpp
index 8fd0e91..17823a7 100644
--- a/src/services/include/services/dns_storage.hpp
+++ b/src/services/include/services/dns_storage.hpp
@@ -142,7 +142,8 @@ bool DataStorage<EntryType, FilterType, SerialiseType>::loadDataFromFile(const c
 template<class EntryType, class FilterType, class SerialiseType>
 bool DataStorage<EntryType, FilterType, SerialiseType>::saveDataToFile(const char *filepath) {
     std::vector<EntryType> entries;
-    std::for_each(_entries.begin(), _entries.end(), [&entries](auto &e) { entries.push_back({ e }); });
+    const auto             now = StorageEntryType::clock::now();
+    std::for_each(_entries.begin(), _entries.end(), [&entries, &now](auto &e) { if (e.ttl > now) entries.push_back({ e }); }); // N.B. the ttl is not stored
     SerialiseType k{ entries };
     IoBuffer      outBuffer;
     opencmw::serialise<opencmw::YaS>(outBuffer, k);
-- 
2.43.0


From e4c763b11e3c2a2985d47ef759182b378f52956c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 125/126] fix: blocking calls of the DNS client could miss
 their reply and wait forever

---
 src/services/include/services/dns_client.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_client.hpp b/src/services/include/services/dns_client.hpp
index a9508d2..072cbfd 100644
--- a/src/services/include/services/dns_client.hpp
+++ b/src/services/include/services/dns_client.hpp
@@ -6,7 +6,9 @@
 #include "MdpMessage.hpp"
 #include <atomic>
 #include <chrono>
+#include <condition_variable>
 #include <IoSerialiserYaS.hpp>
+#include <mutex>
 #include <RestClient.hpp>
 #include <URI.hpp>
 #include <utility>
@@ -93,7 +95,8 @@ public:
         std::condition_variable cv;
         ReturnType              ret;
 
-        (this->*function)([&received, &cv, &ret](const ReturnType &&r) {
+        (this->*function)([&received, &m, &cv, &ret](const ReturnType &&r) {
+            std::lock_guard guard{ m }; // N.B. the caller must neither miss the notification nor return before it has been sent
             ret      = std::move(r);
             received = true;
             cv.notify_one();
-- 
2.43.0


From d36ffa1f7711addcecfd315d0f7d9e4ef36561da Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:22:39 +0000
Subject: [PATCH 126/126] fix: a broker whose DNS timer fired exactly on time
 skipped its announcement and vanished from the directory

---
 src/majordomo/include/majordomo/Broker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index ab66d56..a241f40 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -1091,7 +1091,7 @@ private:
     }
 
     void sendDnsHeartbeats(bool force) {
-        if (Clock::now() > _dnsHeartbeatAt || force) {
+        if (Clock::now() >= _dnsHeartbeatAt || force) {
             const auto ready = createDnsReadyMessage();
             for (const auto &dnsAddress : _dnsAddresses) {
                 auto toSend  = ready;
-- 
2.43.0

