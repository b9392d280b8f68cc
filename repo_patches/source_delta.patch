From f9f429bd3dd319096549cf3d144ee80cd600e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 01/91] fix: LRU cache honours its capacity and evicts only
 when a new key needs room

---
 include/CLruCache.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index b8e3d57..22089ca 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -37,7 +37,7 @@ namespace lce
 
         CLruCache(size_t dwMaxSize = 10000)
         {
-            m_dwMaxSize = 10000;
+            m_dwMaxSize = dwMaxSize;
             m_dwSize = 0;
             pstHead = NULL;
             pstTail = NULL;
@@ -48,7 +48,11 @@ namespace lce
             clearList();
         }
 
-        size_t getSize() { return m_mapCache.size(); }
+        size_t getSize()
+        {
+            CAutoLock lock(m_oMutex);
+            return m_mapCache.size();
+        }
         size_t getMaxSize() { return m_dwMaxSize; }
 
     private:
@@ -81,6 +85,8 @@ namespace lce
 
             if (pstTail != NULL)
                 pstTail->next = NULL;
+            else
+                pstHead = NULL;
 
             m_dwSize--;
 
@@ -146,9 +152,10 @@ namespace lce
         bool set(const TKey &tKey, const TValue &tValue, uint32_t dwExpireTime = 0)
         {
             CAutoLock lock(m_oMutex);
-            if (m_mapCache.size() > m_dwMaxSize)
+            CacheIter it = m_mapCache.find(tKey);
+
+            if (it == m_mapCache.end() && m_mapCache.size() >= m_dwMaxSize)
             {
-                int i = 0;
                 for (int i = 0; i < CACHE_REMOVE_NUM; i++)
                 {
                     SNode *pstNode = getListBackNode();
@@ -164,8 +171,6 @@ namespace lce
                 }
             }
 
-            CacheIter it = m_mapCache.find(tKey);
-
             if (it != m_mapCache.end())
             {
                 SNode *pstModifyNode = it->second;
-- 
2.43.0


From a3baca08d46ac5a358f31045b0703278b1d0c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 02/91] fix: CBlockQueue::pop keeps the lock while it re-checks
 and takes the item

---
 include/CBlockQueue.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 89199ad..5c6caa6 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -150,18 +150,9 @@ namespace lce
         bool pop(T &item)
         {
             pthread_mutex_lock(m_mutex);
-            while (true)
+            while (m_dwSize <= 0)
             {
-                if (m_dwSize <= 0)
-                {
-                    pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
-                    continue;
-                }
-                else
-                {
-                    break;
-                }
+                pthread_cond_wait(m_cond, m_mutex);
             }
 
             m_dwFront = (m_dwFront + 1) % m_dwMaxSize;
-- 
2.43.0


From e973a99f6403611c72734485fd398ac1e3ba33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 03/91] fix: CBlockQueue::front returns the oldest item

---
 include/CBlockQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 5c6caa6..e553622 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -88,7 +88,7 @@ namespace lce
                 pthread_mutex_unlock(m_mutex);
                 return false;
             }
-            value = m_pData[m_dwFront];
+            value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
             pthread_mutex_unlock(m_mutex);
             return true;
         }
-- 
2.43.0


From da2f3a945fb9d625003bd1a1b05518288f410ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 04/91] fix: CBlockQueue::clear wakes the producers waiting for
 room

---
 include/CBlockQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index e553622..4baacf5 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -38,6 +38,7 @@ namespace lce
             m_dwFront = -1;
             m_dwBack = -1;
             pthread_mutex_unlock(m_mutex);
+            pthread_cond_broadcast(m_cond);
         }
 
         ~CBlockQueue()
-- 
2.43.0


From 96997b89368e7b42b84f851fdfc1cd8b43108933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 05/91] fix: CBlockQueue timed pop waits for the whole timeout
 and takes an item that arrived

---
 include/CBlockQueue.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 4baacf5..73ba148 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -169,15 +169,15 @@ namespace lce
             struct timespec t = {0, 0};
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
+            long usec = now.tv_usec + (timeout % 1000) * 1000L;
+            t.tv_sec = now.tv_sec + timeout / 1000 + usec / 1000000;
+            t.tv_nsec = (usec % 1000000) * 1000;
             pthread_mutex_lock(m_mutex);
-            if (m_dwSize <= 0)
+            while (m_dwSize <= 0)
             {
-                t.tv_sec = now.tv_sec + timeout / 1000;
-                t.tv_nsec = (timeout % 1000) * 1000;
                 if (0 != pthread_cond_timedwait(m_cond, m_mutex, &t))
                 {
-                    pthread_mutex_unlock(m_mutex);
-                    return false;
+                    break;
                 }
             }
 
-- 
2.43.0


From 5c8dcea915d82c9068fdc2912e39bf8620f17b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 06/91] fix: CHttpPackageFilter looks only at the received
 bytes

---
 include/CHttpPackageFilter.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 47f2f20..7b9844c 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,10 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <stdlib.h>
+#include <string.h>
+#include <algorithm>
+
 namespace lce
 {
 	class CHttpPackageFilter : public CPackageFilter
@@ -10,20 +14,29 @@ namespace lce
 			MAX_PKG_SIZE = (unsigned int)-1,
 		};
 
+		// the received bytes are not zero terminated
+		static inline const char *find(const char *pBegin, const char *pEnd, const char *pszWhat)
+		{
+			const char *pPos = std::search(pBegin, pEnd, pszWhat, pszWhat + ::strlen(pszWhat));
+			return pPos == pEnd ? NULL : pPos;
+		}
+
 	public:
 		// return value: -2 invalid pkt, -1 pkt haven't received whole pkt, 0 normal
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
 		{
 			int iRe = -1;
-			const char *pFirstLine = ::strstr(pszData, "\r\n");
+			const char *pDataEnd = pszData + iDataSize;
+			const char *pFirstLine = find(pszData, pDataEnd, "\r\n");
 			if (NULL != pFirstLine)
 			{
-				const char *pEnd = ::strstr(pszData, "\r\n\r\n") + sizeof("\r\n\r\n") - 1;
+				const char *pEnd = find(pszData, pDataEnd, "\r\n\r\n");
 				if (NULL != pEnd)
 				{
+					pEnd += sizeof("\r\n\r\n") - 1;
 
 					bool bRecvData = false;
-					const char *pHTTP = ::strstr(pszData, "HTTP");
+					const char *pHTTP = find(pszData, pDataEnd, "HTTP");
 					if (pHTTP == pszData)
 					{
 						bRecvData = true;
@@ -34,12 +47,12 @@ namespace lce
 
 					if (bRecvData)
 					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
+						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
 							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
+								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
 									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
@@ -61,12 +74,12 @@ namespace lce
 					}
 					else
 					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
+						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
 							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
+								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
 									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-- 
2.43.0


From 65771e433a758e301bbd683ec40af43195c5797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 07/91] fix: CHttpPackageFilter rejects a negative or
 overflowing Content-Length

---
 include/CHttpPackageFilter.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 7b9844c..ef93913 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -55,8 +55,12 @@ namespace lce
 								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
+									long lContentLen = strtol(pContentLenPos + sizeof("Content-Length: ") - 1, NULL, 10);
+									if (lContentLen < 0 || lContentLen > 0x7fffffff - iHeadLen)
+									{
+										return -2;
+									}
+									iHTMLLen += (int)lContentLen;
 								}
 							}
 
@@ -82,8 +86,12 @@ namespace lce
 								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
+									long lContentLen = strtol(pContentLenPos + sizeof("Content-Length: ") - 1, NULL, 10);
+									if (lContentLen < 0 || lContentLen > 0x7fffffff - iHeadLen)
+									{
+										return -2;
+									}
+									iHTMLLen += (int)lContentLen;
 								}
 							}
 						}
-- 
2.43.0


From bede70ad980c1c57122abcde2261b1c83aee8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 08/91] fix: CHttpPackageFilter finds Content-Length whatever
 its case

---
 include/CHttpPackageFilter.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index ef93913..b13fdc8 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,7 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 #include <algorithm>
@@ -21,6 +22,18 @@ namespace lce
 			return pPos == pEnd ? NULL : pPos;
 		}
 
+		static inline bool sameChar(char cLeft, char cRight)
+		{
+			return ::tolower((unsigned char)cLeft) == ::tolower((unsigned char)cRight);
+		}
+
+		// header names are case insensitive, blanks after the colon are optional
+		static inline const char *findHeader(const char *pBegin, const char *pEnd, const char *pszName)
+		{
+			const char *pPos = std::search(pBegin, pEnd, pszName, pszName + ::strlen(pszName), sameChar);
+			return pPos == pEnd ? NULL : pPos;
+		}
+
 	public:
 		// return value: -2 invalid pkt, -1 pkt haven't received whole pkt, 0 normal
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
@@ -47,7 +60,7 @@ namespace lce
 
 					if (bRecvData)
 					{
-						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
+						const char *pContentLenPos = findHeader(pszData, pEnd, "\r\nContent-Length:");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
@@ -55,7 +68,7 @@ namespace lce
 								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
-									long lContentLen = strtol(pContentLenPos + sizeof("Content-Length: ") - 1, NULL, 10);
+									long lContentLen = strtol(pContentLenPos + sizeof("\r\nContent-Length:") - 1, NULL, 10);
 									if (lContentLen < 0 || lContentLen > 0x7fffffff - iHeadLen)
 									{
 										return -2;
@@ -78,7 +91,7 @@ namespace lce
 					}
 					else
 					{
-						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
+						const char *pContentLenPos = findHeader(pszData, pEnd, "\r\nContent-Length:");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
@@ -86,7 +99,7 @@ namespace lce
 								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
-									long lContentLen = strtol(pContentLenPos + sizeof("Content-Length: ") - 1, NULL, 10);
+									long lContentLen = strtol(pContentLenPos + sizeof("\r\nContent-Length:") - 1, NULL, 10);
 									if (lContentLen < 0 || lContentLen > 0x7fffffff - iHeadLen)
 									{
 										return -2;
-- 
2.43.0


From 91918cb9ff3521250c2b74c2290a4bb6cb540f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 09/91] fix: writing to a connection the peer has reset does
 not raise SIGPIPE

---
 src/CTcpConnector.cpp | 2 +-
 src/Utils.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 704beaf..93bbad4 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -131,7 +131,7 @@ namespace lce
 		setsockopt(m_iFd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
 		int iSendLen = -1;
-		iSendLen = ::send(m_iFd, pData, iSize, 0);
+		iSendLen = ::send(m_iFd, pData, iSize, MSG_NOSIGNAL);
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1f29a32..c41b093 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -58,7 +58,7 @@ namespace lce
 
     int Send(int iFd, const char *buf, int count)
     {
-        return ::send(iFd, buf, count, 0);
+        return ::send(iFd, buf, count, MSG_NOSIGNAL);
     }
 
     int CreateTcpSock()
-- 
2.43.0


From d095c0abaff5f1125800cc17a0674de69c2d0208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 10/91] fix: a connection that is established at once is read
 from

---
 src/CCommMgr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b7004de..8a89a26 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -870,6 +870,13 @@ namespace lce
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
                 }
+
+                if (m_oCEvent.addFdEvent(iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), &m_vecClients[iFd]) != 0)
+                {
+                    close(iFd);
+                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error:%s", __FILE__, __LINE__, m_oCEvent.getErrorMsg());
+                    return -1;
+                }
                 return iFd;
             }
             else
-- 
2.43.0


From ef3f5f323b49aa8e132229ff233693d1f4d96266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 11/91] fix: a session whose descriptor was reused does not
 reach the new connection

---
 include/CCommMgr.h |  4 +++-
 include/Define.h   |  2 ++
 src/CCommMgr.cpp   | 36 ++++++++++++++++++++++++++++--------
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 872ef40..ec9e23a 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -95,8 +95,9 @@ namespace lce
         int close(int iFd);
         int write(int iFd);
         inline bool isClose(int iFd);
+        inline bool isClose(const StSession &stSession);
 
-        CCommMgr() {}
+        CCommMgr() : m_ddwConnId(0) {}
         CCommMgr &operator=(const CCommMgr &);
         CCommMgr(const CCommMgr &);
 
@@ -109,6 +110,7 @@ namespace lce
         static CCommMgr *m_pInstance;
         uint32_t m_dwMaxClient;
         uint32_t m_dwClientNum;
+        uint64_t m_ddwConnId;
     };
 };
 
diff --git a/include/Define.h b/include/Define.h
index e2aa5a6..8167867 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -16,6 +16,7 @@ namespace lce
 		void *pData;
 		struct sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId; // tells connections that used the same iFd apart, 0 means whichever has it now
 		int64_t getDelayTime()
 		{
 			uint64_t ddwCurTime = lce::GetTickCount();
@@ -98,6 +99,7 @@ namespace lce
 		CSocketBuf *pSocketSendBuf;
 		sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId;
 		~StClientInfo()
 		{
 			if (pSocketRecvBuf != NULL)
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 8a89a26..b625891 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -312,6 +312,7 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
@@ -362,7 +363,7 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                     break;
 
                 pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
@@ -381,7 +382,7 @@ namespace lce
 
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onClose(stSession);
-            close(iFd);
+            close(stSession);
         }
         else
         {
@@ -390,7 +391,7 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onClose(stSession);
-                close(iFd);
+                close(stSession);
             }
             else if (errno == EAGAIN || errno == EINTR)
             {
@@ -457,6 +458,7 @@ namespace lce
             pstClientInfo->iSrvId = pstServerInfo->iSrvId;
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
+            pstClientInfo->ddwConnId = ++m_ddwConnId;
 
             m_dwClientNum++;
 
@@ -465,11 +467,12 @@ namespace lce
 
             stSession.iFd = iClientSock;
             stSession.stClientAddr = pstClientInfo->stClientAddr;
+            stSession.ddwConnId = pstClientInfo->ddwConnId;
 
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
 
-            if (isClose(iClientSock))
+            if (isClose(stSession))
                 continue;
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -504,13 +507,14 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (error == 0)
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-            if (!isClose(iFd))
+            if (!isClose(stSession))
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
@@ -523,14 +527,14 @@ namespace lce
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, false, pData);
-            close(iFd);
+            close(stSession);
         }
     }
 
     int CCommMgr::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
     {
 
-        if (isClose(stSession.iFd))
+        if (isClose(stSession))
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
             return -1;
@@ -710,6 +714,7 @@ namespace lce
         stSession.stClientAddr = pstClientInfo->stClientAddr;
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
@@ -772,6 +777,10 @@ namespace lce
     int CCommMgr::close(const StSession &stSession)
     {
         int iFd = stSession.iFd;
+        if (isClose(stSession))
+        {
+            return 0;
+        }
         return close(iFd);
     }
 
@@ -814,6 +823,15 @@ namespace lce
         return (m_vecClients[iFd].iFd == 0);
     }
 
+    inline bool CCommMgr::isClose(const StSession &stSession)
+    {
+        if (isClose(stSession.iFd))
+        {
+            return true;
+        }
+        return stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd].ddwConnId;
+    }
+
     int CCommMgr::connect(int iSrvId, const string &sIp, uint16_t wPort, void *pData)
     {
         if (iSrvId < 0 || iSrvId > (int)m_vecServers.size() - 1)
@@ -847,6 +865,7 @@ namespace lce
             lce::SetNoneBlock(iFd);
 
             m_vecClients[iFd].iFd = iFd;
+            m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
@@ -861,11 +880,12 @@ namespace lce
                 stSession.iFd = iFd;
                 stSession.iSvrId = pstServerInfo->iSrvId;
                 stSession.stClientAddr = m_vecClients[iFd].stClientAddr;
+                stSession.ddwConnId = m_vecClients[iFd].ddwConnId;
 
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
-- 
2.43.0


From 286f4883d331d1499116b0e89f154d5a42eeb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 12/91] fix: an event of a closed descriptor is not given to
 the connection that reuses it

---
 include/CEvent.h |  7 +++++++
 src/CEvent.cpp   | 27 +++++++++++++++++----------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 0801ab0..07013b1 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -48,6 +48,7 @@ namespace lce
         typedef struct
         {
             int iEventType;
+            uint32_t dwRegId;
             HandlerEvent onRead;
             HandlerEvent onWrite;
             void *pClientRData;
@@ -94,6 +95,12 @@ namespace lce
         const char *getErrorMsg() { return m_szErrMsg; }
 
     private:
+        // what epoll gives back: the fd and which registration of it the event belongs to
+        inline uint64_t eventData(int iFd)
+        {
+            return ((uint64_t)m_stFdEvents[iFd].dwRegId << 32) | (uint32_t)iFd;
+        }
+
         static inline uint64_t getMillSecsNow()
         {
             struct timeval stNow;
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 00fb1e6..113c12d 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -58,6 +58,7 @@ namespace lce
         for (int i = 0; i < (int)dwMaxFdNum; i++)
         {
             m_stFdEvents[i].iEventType = EV_DONE;
+            m_stFdEvents[i].dwRegId = 0;
             m_stFdEvents[i].pClientRData = NULL;
             m_stFdEvents[i].pClientWData = NULL;
         }
@@ -103,6 +104,9 @@ namespace lce
 
         stEvent.events = 0;
 
+        if (m_stFdEvents[iWatchFd].iEventType == EV_DONE)
+            m_stFdEvents[iWatchFd].dwRegId++;
+
         int iOP = m_stFdEvents[iWatchFd].iEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
 
         m_stFdEvents[iWatchFd].iEventType = m_stFdEvents[iWatchFd].iEventType | iEventType;
@@ -112,8 +116,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = eventData(iWatchFd);
 
         if (iEventType & EV_READ)
         {
@@ -158,8 +161,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = eventData(iWatchFd);
 
         if (m_stFdEvents[iWatchFd].iEventType != EV_DONE)
         {
@@ -321,12 +323,17 @@ namespace lce
 
             for (int i = 0; i < iEventNum; i++)
             {
+                int iFd = (int)(uint32_t)m_stEPollState.stEvents[i].data.u64;
+
+                // an earlier handler closed this fd and it was registered again
+                if (m_stEPollState.stEvents[i].data.u64 != eventData(iFd))
+                    continue;
 
                 if ((m_stEPollState.stEvents[i].events & EPOLLIN) ||
                     (m_stEPollState.stEvents[i].events & EPOLLERR) ||
                     (m_stEPollState.stEvents[i].events & EPOLLHUP))
                 {
-                    if (m_stEPollState.stEvents[i].data.fd == m_iMsgFd[0]) // 自定义事件
+                    if (iFd == m_iMsgFd[0]) // 自定义事件
                     {
                         char szBuf[1];
 
@@ -359,17 +366,17 @@ namespace lce
                     }
                     else
                     {
-                        StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
+                        StFdEvent &stFdEvent = m_stFdEvents[iFd];
                         if ((stFdEvent.iEventType & EV_READ) == EV_READ)
-                            stFdEvent.onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                            stFdEvent.onRead(iFd, stFdEvent.pClientRData);
                     }
                 }
-                if (m_stEPollState.stEvents[i].events & EPOLLOUT)
+                if ((m_stEPollState.stEvents[i].events & EPOLLOUT) && m_stEPollState.stEvents[i].data.u64 == eventData(iFd))
                 {
 
-                    StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
+                    StFdEvent &stFdEvent = m_stFdEvents[iFd];
                     if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE)
-                        stFdEvent.onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                        stFdEvent.onWrite(iFd, stFdEvent.pClientWData);
                 }
             }
         }
-- 
2.43.0


From 252aa11d2b935a8fe249cd068a4dae224255fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 13/91] fix: removing a server closes its connections

---
 src/CCommMgr.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b625891..0a9e44f 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -273,7 +273,8 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                pstClientInfo->pSocketRecvBuf->reset();
+                if (pstClientInfo->pSocketRecvBuf != NULL) // the server may be gone
+                    pstClientInfo->pSocketRecvBuf->reset();
                 break;
             }
 
@@ -417,7 +418,10 @@ namespace lce
         if (pstServerInfo == NULL)
             return;
 
-        while (true)
+        int iSrvId = pstServerInfo->iSrvId;
+
+        // until a callback removes the server
+        while (m_vecServers[iSrvId] == pstServerInfo)
         {
             struct sockaddr_in stClientAddr;
             int iAddrLen = sizeof(struct sockaddr_in);
@@ -1008,6 +1012,21 @@ namespace lce
             lce::Close(pstServerInfo->iFd);
         }
 
+        // the connections of the server go with it
+        for (int iFd = 0; iFd < (int)m_vecClients.size(); ++iFd)
+        {
+            if (!isClose(iFd) && m_vecClients[iFd].iSrvId == iSrvId)
+            {
+                close(iFd);
+            }
+        }
+
+        if (pstServerInfo->iType == SRV_UDP)
+        {
+            delete m_vecClients[pstServerInfo->iFd].pSocketRecvBuf;
+            m_vecClients[pstServerInfo->iFd].pSocketRecvBuf = NULL;
+        }
+
         delete pstServerInfo;
 
         m_vecServers[iSrvId] = NULL;
@@ -1026,6 +1045,9 @@ namespace lce
 
         for (vector<StServerInfo *>::iterator it = m_vecServers.begin(); it != m_vecServers.end(); ++it)
         {
+            if (*it == NULL)
+                continue;
+
             lce::Close((*it)->iFd);
             delete (*it);
         }
-- 
2.43.0


From f363551afdfa63ea5efe521b42be7515f8184407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 14/91] fix: the client limit is the number asked for and never
 exceeds the connection table

---
 src/CCommMgr.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 0a9e44f..da37ddc 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -446,7 +446,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum > m_dwMaxClient)
+            if (m_dwClientNum >= m_dwMaxClient || iClientSock >= (int)m_vecClients.size())
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
@@ -483,7 +483,7 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
-                lce::Close(iClientSock);
+                close(stSession);
                 continue;
             }
         }
@@ -863,6 +863,13 @@ namespace lce
                 return -1;
             }
 
+            if (iFd >= (int)m_vecClients.size())
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many connections", __FILE__, __LINE__);
+                lce::Close(iFd);
+                return -1;
+            }
+
             m_vecClients[iFd].iSrvId = pstServerInfo->iSrvId;
 
             lce::SetReUseAddr(iFd);
-- 
2.43.0


From 8647b89457bd9ce0b1212789e15bf84adf4abc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 15/91] fix: sending a message never blocks on a full pipe with
 the lock held

---
 src/CEvent.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 113c12d..a24a343 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -79,7 +79,8 @@ namespace lce
         }
         iOpts = iOpts | O_NONBLOCK;
 
-        if (fcntl(m_iMsgFd[0], F_SETFL, iOpts) < 0)
+        // writing must not block either: addMessage holds the lock the reader needs
+        if (fcntl(m_iMsgFd[0], F_SETFL, iOpts) < 0 || fcntl(m_iMsgFd[1], F_SETFL, O_WRONLY | O_NONBLOCK) < 0)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
             return -1;
@@ -259,6 +260,13 @@ namespace lce
 
         int iFlag = write(m_iMsgFd[1], "1", 1);
 
+        while (iFlag < 0 && errno == EINTR)
+            iFlag = write(m_iMsgFd[1], "1", 1);
+
+        // a full pipe wakes the reader just as well
+        if (iFlag < 0 && errno == EAGAIN)
+            iFlag = 0;
+
         ::pthread_mutex_unlock(&m_lock);
 
         if (iFlag < 0)
@@ -344,9 +352,11 @@ namespace lce
 
                             ::pthread_mutex_lock(&m_lock);
 
+                            // not more than one byte for each message
                             int iFlag = read(m_iMsgFd[0], szBuf, 1);
+                            (void)iFlag;
 
-                            if (!m_queMsgEvents.empty() && iFlag > 0)
+                            if (!m_queMsgEvents.empty())
                             {
                                 stMsgEvent = m_queMsgEvents.front();
                                 m_queMsgEvents.pop();
-- 
2.43.0


From d8d3b78f75e7ff64eac1c659576a671cba5e3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 16/91] fix: a timer of more than 24 days does not stop the
 event loop

---
 src/CEvent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index a24a343..a5a5544 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -321,7 +321,7 @@ namespace lce
                     else
                     {
                         if (it != m_setStTimeEvents.end() && (it->ddwMillSecs - ddwTimeNow) > 0)
-                            ddwExpire = it->ddwMillSecs - ddwTimeNow;
+                            ddwExpire = min(ddwExpire, it->ddwMillSecs - ddwTimeNow);
                         break;
                     }
                 }
-- 
2.43.0


From c636c41922e8b581cc1e084978d3a8dcda667610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 17/91] fix: a datagram is received whole or reported, never
 cut

---
 src/CCommMgr.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index da37ddc..9a203cc 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -235,7 +235,8 @@ namespace lce
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
-            pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwInitRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
+            // a datagram is received at once
+            pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwMaxRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
         }
 
         int iSize = 0;
@@ -255,14 +256,29 @@ namespace lce
             return;
         }
 
-        iSize = ::recvfrom(iFd, pstClientInfo->pSocketRecvBuf->getFreeBuf(), pstClientInfo->pSocketRecvBuf->getFreeSize(), 0, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
+        iSize = ::recvfrom(iFd, pstClientInfo->pSocketRecvBuf->getFreeBuf(), pstClientInfo->pSocketRecvBuf->getFreeSize(), MSG_TRUNC, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
 
         stSession.stClientAddr = pstClientInfo->stClientAddr;
 
-        if (iSize > 0)
+        if (iSize > (int)pstClientInfo->pSocketRecvBuf->getFreeSize())
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,datagram of %d bytes is too long", __FILE__, __LINE__, iSize);
+            if (pstServerInfo->pProcessor != NULL)
+                pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_NO_BUFFER);
+        }
+        else if (iSize > 0)
         {
             pstClientInfo->pSocketRecvBuf->addData(iSize);
 
+            if (pstServerInfo->pPackageFilter == NULL)
+            {
+                pstClientInfo->pSocketRecvBuf->reset();
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,package filter is null", __FILE__, __LINE__);
+                if (pstServerInfo->pProcessor != NULL)
+                    pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_PKG_FILTER);
+                return;
+            }
+
             int iWholePkgFlag = 0;
             int iRealPkgLen = 0;
             int iPkgLen = 0;
-- 
2.43.0


From 0d7bc5ec52d9348c4d77960c93b775edb24585a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 18/91] fix: writing nothing succeeds, and closes when asked to

---
 src/CCommMgr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 9a203cc..3d7fa90 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -572,7 +572,7 @@ namespace lce
         {
             iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-            if (iSendSize > 0)
+            if (iSendSize >= 0)
             {
                 if (iSendSize < iSize)
                 {
@@ -668,7 +668,7 @@ namespace lce
             else
             {
                 int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-                if (iSendSize > 0)
+                if (iSendSize >= 0)
                 {
                     if (iSendSize < iSize)
                     {
-- 
2.43.0


From 18bf1ec58be3469aa2ca7223244ff1fe51cb1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 19/91] fix: the task queue holds at most the number of tasks
 asked for

---
 src/CTask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTask.cpp b/src/CTask.cpp
index bf5aa51..6b8e4b3 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -45,7 +45,7 @@ namespace lce
 
         pthread_mutex_lock(&m_lock);
 
-        if (m_queTaskQueue.size() > (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
+        if (m_queTaskQueue.size() >= (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,queue over size :%d", __FILE__, __LINE__, (int)m_queTaskQueue.size());
             pthread_mutex_unlock(&m_lock);
-- 
2.43.0


From 80ab8864f0aae7485fcabd61a51b6a4d222160e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 20/91] fix: stopping the task threads does not leave the queue
 locked

---
 include/CTask.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/CTask.h b/include/CTask.h
index 1366d8b..92141bf 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -54,7 +54,9 @@ namespace lce
 
                     if (m_pTask->m_queTaskQueue.empty())
                     {
+                        pthread_cleanup_push(CTaskThread::unlock, &m_pTask->m_lock);
                         pthread_cond_wait(&m_pTask->m_cond, &m_pTask->m_lock); // 线程睡眠等待
+                        pthread_cleanup_pop(0);
                     }
                     else
                     {
@@ -73,6 +75,13 @@ namespace lce
                 return 0;
             }
 
+        private:
+            // a thread cancelled in pthread_cond_wait holds the lock again
+            static void unlock(void *pLock)
+            {
+                pthread_mutex_unlock((pthread_mutex_t *)pLock);
+            }
+
         private:
             CTask *m_pTask;
             int m_iIndex;
-- 
2.43.0


From f9ff039ba9a0aa018b81ecff2a89afa11ceb24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 21/91] fix: onConnect of a worker is given the session of the
 new connection

---
 src/CNetWorker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 730d9b5..ccc16ed 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -290,18 +290,18 @@ namespace lce
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
-				stSession.iFd = iFd;
+				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession.iFd))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
-					close(iFd);
+					close(stSession.iFd);
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
 					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
 				}
-- 
2.43.0


From 674ce3f2f850a91543b889eb2fb09605b456a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 22/91] fix: writing nothing to a worker's connection succeeds,
 and closes when asked to

---
 src/CNetWorker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index ccc16ed..c501749 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -438,7 +438,7 @@ namespace lce
 		{
 			iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-			if (iSendSize > 0)
+			if (iSendSize >= 0)
 			{
 				if (iSendSize < iSize)
 				{
@@ -530,7 +530,7 @@ namespace lce
 			else
 			{
 				int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-				if (iSendSize > 0)
+				if (iSendSize >= 0)
 				{
 					if (iSendSize < iSize)
 					{
-- 
2.43.0


From 11460be529bc509a92242bbebb764bdc0abb31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 23/91] fix: a worker does not connect beyond its connection
 table

---
 src/CNetWorker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index c501749..15e1cd9 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -137,6 +137,14 @@ namespace lce
 				return -1;
 			}
 
+			if (pstClientInfo->iFd >= (int)m_vecClients.size())
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many connections", __FILE__, __LINE__);
+				lce::Close(pstClientInfo->iFd);
+				delete pstClientInfo;
+				return -1;
+			}
+
 			lce::SetReUseAddr(pstClientInfo->iFd);
 			lce::SetNoneBlock(pstClientInfo->iFd);
 
-- 
2.43.0


From 82f1eb307bd5461144daf4970ee396f48bda66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 24/91] fix: a worker reads from a connection that is
 established at once

---
 src/CNetWorker.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 15e1cd9..11b1209 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -165,12 +165,19 @@ namespace lce
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession.iFd))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
-				return pstClientInfo->iFd;
+
+				if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
+				{
+					close(stSession.iFd);
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					return -1;
+				}
+				return stSession.iFd;
 			}
 			else
 			{
-- 
2.43.0


From 2330ca32e45abdc431a9d0e1045f2337dc126bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 25/91] fix: a worker's session whose descriptor was reused
 does not reach the new connection

---
 include/CNetWorker.h |  8 ++++++++
 src/CNetWorker.cpp   | 32 ++++++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/CNetWorker.h b/include/CNetWorker.h
index b22e51f..27fa3ed 100755
--- a/include/CNetWorker.h
+++ b/include/CNetWorker.h
@@ -32,6 +32,7 @@ namespace lce
 		CNetWorker()
 		{
 			m_iEventFd = 0;
+			m_ddwConnId = 0;
 		}
 
 		virtual ~CNetWorker()
@@ -106,6 +107,12 @@ namespace lce
 		{
 			return (m_vecClients[iFd] == NULL);
 		}
+		inline bool isClose(const StSession &stSession)
+		{
+			if (isClose(stSession.iFd))
+				return true;
+			return stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd]->ddwConnId;
+		}
 		int close(int iFd);
 		int write(int iFd);
 
@@ -123,6 +130,7 @@ namespace lce
 		map<uint32_t, StServerInfo *> m_mapServers;
 		CCircleQueue<StClientInfo *> m_queConn;
 		int m_iEventFd;
+		uint64_t m_ddwConnId;
 	};
 };
 
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 11b1209..18045cc 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -128,6 +128,7 @@ namespace lce
 			pstClientInfo->iFd = lce::CreateTcpSock();
 			pstClientInfo->pstServerInfo = pstServerInfo;
 			pstClientInfo->ddwBeginTime = lce::GetTickCount();
+			pstClientInfo->ddwConnId = ++m_ddwConnId;
 
 			if (pstClientInfo->iFd < 0)
 			{
@@ -162,10 +163,11 @@ namespace lce
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(stSession.iFd))
+				if (isClose(stSession))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
@@ -236,12 +238,13 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (error == 0)
 		{
 			onConnect(stSession, true, pData);
 
-			if (!isClose(iFd))
+			if (!isClose(stSession))
 			{
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -255,7 +258,7 @@ namespace lce
 		else
 		{
 			onConnect(stSession, false, pData);
-			close(iFd);
+			close(stSession);
 		}
 	}
 
@@ -301,6 +304,7 @@ namespace lce
 
 			if (pstClientInfo != NULL)
 			{
+				pstClientInfo->ddwConnId = ++m_ddwConnId;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 
 				StSession stSession;
@@ -308,10 +312,11 @@ namespace lce
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(stSession.iFd))
+				if (isClose(stSession))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -327,6 +332,11 @@ namespace lce
 	void CNetWorker::onTcpRead(int iFd, void *pData)
 	{
 
+		if (isClose(iFd))
+		{
+			return;
+		}
+
 		StClientInfo *pstClientInfo = m_vecClients[iFd];
 
 		StSession stSession;
@@ -334,6 +344,7 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (pstClientInfo->pSocketRecvBuf == NULL)
 		{
@@ -378,7 +389,7 @@ namespace lce
 			while ((iWholePkgFlag = pstClientInfo->pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
 			{
 				onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-				if (isClose(iFd))
+				if (isClose(stSession))
 					break;
 				pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
 			}
@@ -392,14 +403,14 @@ namespace lce
 		else if (iSize == 0)
 		{
 			onClose(stSession);
-			close(iFd);
+			close(stSession);
 		}
 		else
 		{
 			if (errno == 104) // Connection reset by peer
 			{
 				onClose(stSession);
-				close(iFd);
+				close(stSession);
 			}
 			else if (errno == EAGAIN || errno == EINTR) // ��������������IO��������������ر�����
 			{
@@ -417,6 +428,10 @@ namespace lce
 
 	int CNetWorker::close(const StSession &stSession)
 	{
+		if (isClose(stSession))
+		{
+			return 0;
+		}
 		return close(stSession.iFd);
 	}
 
@@ -435,7 +450,7 @@ namespace lce
 	int CNetWorker::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
 	{
 
-		if (isClose(stSession.iFd))
+		if (isClose(stSession))
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
 			return -1;
@@ -611,6 +626,7 @@ namespace lce
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
-- 
2.43.0


From e38c9d82198eec779297d568805c823cf8e66160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 26/91] fix: CNetWorkerMgr starts counting its clients from
 zero

---
 include/CNetWorkerMgr.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 0ac2043..3a8034e 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -78,6 +78,7 @@ namespace lce
 		}
 
 		m_dwMaxClient = dwMaxClient;
+		m_dwClientNum = 0;
 		m_pErrHandler = NULL;
 
 		for (int i = 0; i < dwThreadNum; i++)
-- 
2.43.0


From 54ab2e87d4eb9890b6c437712bee8fe32cb129f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 27/91] fix: a worker pool without an error handler has none

---
 include/CAnyWorkerPool.h  | 2 +-
 include/CHttpWorkerPool.h | 2 +-
 include/CRawWorkerPool.h  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index afcc651..8b4b30b 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -48,7 +48,7 @@ namespace lce
         }
     }
     template <class T>
-    CAnyWorkerPool<T>::CAnyWorkerPool()
+    CAnyWorkerPool<T>::CAnyWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index b09626e..d793efd 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -48,7 +48,7 @@ namespace lce
         }
     }
     template <class T>
-    CHttpWorkerPool<T>::CHttpWorkerPool()
+    CHttpWorkerPool<T>::CHttpWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 7792766..9f21acd 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -48,7 +48,7 @@ namespace lce
         }
     }
     template <class T>
-    CRawWorkerPool<T>::CRawWorkerPool()
+    CRawWorkerPool<T>::CRawWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
-- 
2.43.0


From 8c032077a4588eabc6fd058d1511db0eb6193310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 28/91] fix: a request that a worker pool refuses is freed

---
 include/CAnyWorkerPool.h  | 3 +++
 include/CHttpWorkerPool.h | 3 +++
 include/CRawWorkerPool.h  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 8b4b30b..fa81b4f 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -98,6 +98,9 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
+
+                delete poRequest;
+                poRequest = NULL;
             }
         }
         catch (const exception &e)
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index d793efd..83da81a 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -98,6 +98,9 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
+
+                delete poRequest;
+                poRequest = NULL;
             }
         }
         catch (const exception &e)
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 9f21acd..2f32602 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -94,6 +94,9 @@ namespace lce
         {
             if (m_pErrHandler != NULL)
                 m_pErrHandler("task queue full");
+
+            delete pstRequest;
+            pstRequest = NULL;
         }
     }
 
-- 
2.43.0


From 7b55dd04cd30f5cb94bcfa6bdcbdc46268c3f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 29/91] fix: CAnyValuePackage does not decode past the end of
 the package

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4cb503d..c98a929 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -2057,7 +2057,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decode(pData + dwPos, dwDataSize);
+            m_oAnyValues.decode(pData + dwPos, dwDataSize - dwPos);
         }
 
         void decodeJSON(const unsigned char *pData, const size_t dwDataSize)
@@ -2080,7 +2080,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize);
+            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize - dwPos);
         }
 
         const char *data()
-- 
2.43.0


From 3a661e190f8ff0c3e003b14d1c43bb29c702cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 30/91] fix: a write that asks for closing is not taken back by
 a later write

---
 src/CCommMgr.cpp   | 11 ++++++++---
 src/CNetWorker.cpp |  9 ++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 3d7fa90..b031186 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -479,6 +479,7 @@ namespace lce
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
             pstClientInfo->ddwConnId = ++m_ddwConnId;
+            pstClientInfo->bNeedClose = false;
 
             m_dwClientNum++;
 
@@ -564,7 +565,6 @@ namespace lce
 
         StServerInfo *pstServerInfo = m_vecServers[stSession.iSvrId];
 
-        pstClientInfo->bNeedClose = bClose;
         int iSendBufSize = 0;
         int iSendSize = 0;
 
@@ -595,9 +595,10 @@ namespace lce
                 }
                 else
                 {
-                    if (bClose)
+                    if (bClose || pstClientInfo->bNeedClose)
                     {
                         close(stSession.iFd);
+                        return 0;
                     }
                     else
                     {
@@ -686,9 +687,10 @@ namespace lce
                     }
                     else
                     {
-                        if (bClose)
+                        if (bClose || pstClientInfo->bNeedClose)
                         {
                             close(stSession.iFd);
+                            return 0;
                         }
                         else
                         {
@@ -720,6 +722,8 @@ namespace lce
                 }
             }
         }
+        if (bClose)
+            pstClientInfo->bNeedClose = true; // a later write does not take it back
         return 0;
     }
 
@@ -893,6 +897,7 @@ namespace lce
 
             m_vecClients[iFd].iFd = iFd;
             m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
+            m_vecClients[iFd].bNeedClose = false;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 18045cc..2c96216 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -460,7 +460,6 @@ namespace lce
 
 		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;
 
-		pstClientInfo->bNeedClose = bClose;
 		int iSendBufSize = 0;
 		int iSendSize = 0;
 
@@ -489,9 +488,10 @@ namespace lce
 				}
 				else
 				{
-					if (bClose)
+					if (bClose || pstClientInfo->bNeedClose)
 					{
 						close(stSession.iFd);
+						return 0;
 					}
 					else
 					{
@@ -578,9 +578,10 @@ namespace lce
 					}
 					else
 					{
-						if (bClose)
+						if (bClose || pstClientInfo->bNeedClose)
 						{
 							close(stSession.iFd);
+							return 0;
 						}
 						else
 						{
@@ -612,6 +613,8 @@ namespace lce
 				}
 			}
 		}
+		if (bClose)
+			pstClientInfo->bNeedClose = true; // a later write does not take it back
 		return 0;
 	}
 
-- 
2.43.0


From ff0d3f8ed1a87d29fcb37746d487a16080ad340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 31/91] fix: AnyHeader keeps the client ip and all of the uid

---
 include/CAnyPackage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index 41587ba..962bf54 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -51,11 +51,11 @@ namespace lce
         void setFormat(uint32_t dwFormat) { this->dwFormat = htonl(dwFormat); }
         uint32_t getFormat() { return ntohl(dwFormat); }
 
-        void setUid(uint64_t ddwUid) { this->ddwUid = htonl(ddwUid); }
-        uint64_t getUid() { return ntohl(ddwUid); }
+        void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
+        uint64_t getUid() { return ntohll(ddwUid); }
 
-        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
-        uint32_t getClientIp() { return ntohll(dwClientIp); }
+        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonl(dwClientIp); }
+        uint32_t getClientIp() { return ntohl(dwClientIp); }
 
         void setErrno(uint32_t dwErrno) { this->dwErrno = htonl(dwErrno); }
         uint32_t getErrno() { return ntohl(dwErrno); }
-- 
2.43.0


From 247fe0c12f63eb6c26072cc56b7bf39f5adce652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 32/91] fix: CAnyValue::asInt64, asUInt and asUInt64 return
 what their names say

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index c98a929..6df91c6 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -256,21 +256,21 @@ namespace lce
             return 0;
         }
 
-        int asInt64() const
+        int64_t asInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<int64_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt() const
+        uint32_t asUInt() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint32_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt64() const
+        uint64_t asUInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint64_t>(m_value.integer);
-- 
2.43.0


From 9cb7515af05244d6e3eac2db7e57c25790f7950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 33/91] fix: a negative index into a CAnyValue is refused

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 6df91c6..23af9bd 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -423,7 +423,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -435,7 +435,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
-- 
2.43.0


From 1abbe3c9627b19887c41d13c5bf8c88225e35022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 34/91] fix: assigning to a CAnyValue a part of itself, or
 null, does not use freed memory

---
 include/CAnyValue.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 23af9bd..f688071 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -233,7 +233,7 @@ namespace lce
         }
 
         CAnyValue(const CAnyValue &rhs)
-            : m_bInit(false)
+            : m_ucType(DType::Null), m_bInit(false)
         {
             init();
             assign(rhs);
@@ -1926,12 +1926,14 @@ namespace lce
 
         void assign(const this_type &rhs)
         {
-            if (m_ucType == DType::String)
-                delete m_value.buf;
-            if (m_ucType == DType::Vector)
-                delete m_value.vec;
-            if (m_ucType == DType::Map)
-                delete m_value.map;
+            // rhs may be a part of the old value, or contain it
+            const ValueHolder oldValue = m_value;
+            const unsigned char ucOldType = m_ucType;
+
+            if (rhs.m_ucType == DType::Null)
+            {
+                m_value.integer = 0;
+            }
 
             if (rhs.m_ucType == DType::Integer)
             {
@@ -1969,6 +1971,13 @@ namespace lce
             m_ucSubType = rhs.m_ucSubType;
             m_bHasData = rhs.m_bHasData;
             m_bInit = rhs.m_bInit;
+
+            if (ucOldType == DType::String)
+                delete oldValue.buf;
+            if (ucOldType == DType::Vector)
+                delete oldValue.vec;
+            if (ucOldType == DType::Map)
+                delete oldValue.map;
         }
 
     private:
-- 
2.43.0


From e662b007476a7f340b62d377613435ab95fbde52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 35/91] fix: decoding into a CAnyValue replaces what it held

---
 include/CAnyValue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index f688071..de57911 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -686,6 +686,7 @@ namespace lce
         void decodeJSON(const char *szBuf, const size_t iSize)
         {
             int dwPos = 0;
+            this->clear();
             skipSpaces(dwPos, szBuf, iSize);
 
             if (szBuf[dwPos] == '{')
@@ -1795,6 +1796,7 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            this->clear();
             check(dwDecodePos + 1, dwDataSize);
             m_ucSubType = *(pData + dwDecodePos);
             dwDecodePos++;
-- 
2.43.0


From 3d7d81eafa74cdce2d3bbb48115973f37df2771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 36/91] fix: a vector which claims more elements than there are
 bytes is refused

---
 include/CAnyValue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index de57911..4eda9bd 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1168,6 +1168,10 @@ namespace lce
             check(dwDecodePos + 4, dwDataSize);
             uint32_t dwSize = ntohl(*(uint32_t *)(pData + dwDecodePos));
             dwDecodePos += 4;
+            if (dwSize > dwDataSize - dwDecodePos)
+            {
+                throw Error("decode data error.");
+            }
             thisobj.m_value.vec->resize(dwSize);
 
             for (uint32_t i = 0; i < dwSize; ++i)
-- 
2.43.0


From 9bbb62018e75b3e9d337ea59798cc04dd43edaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 37/91] fix: decoding a value of an unknown type is an error

---
 include/CAnyValue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4eda9bd..17bb7fa 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1809,6 +1809,10 @@ namespace lce
             {
                 arDecodeFunc[m_ucSubType](dwDecodePos, pData, dwDataSize, *this);
             }
+            else
+            {
+                throw Error("decode data error: unknown type.");
+            }
         }
 
     public:
-- 
2.43.0


From 176553465a5bf972aff0a9f3fb952f05d3b6958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 38/91] fix: a map cut before a value is refused

---
 include/CAnyValue.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 17bb7fa..c09e25b 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1195,10 +1195,7 @@ namespace lce
                 check(dwDecodePos + ucNameLen, dwDataSize);
                 BufType sName(pData + dwDecodePos, ucNameLen);
                 dwDecodePos += ucNameLen;
-                if (dwDataSize > dwDecodePos)
-                {
-                    (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
-                }
+                (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
             }
         }
 
-- 
2.43.0


From 80fc5c2025d2b7654c929c91734b8e79648bb99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 39/91] fix: a non-negative signed integer is encoded in a
 width that holds it

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index c09e25b..71e8540 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1696,18 +1696,18 @@ namespace lce
 
             int64_t iValue = (int64_t)value.integer;
 
-            if (iValue > -129)
+            if (iValue > -129 && iValue < 128)
             {
                 sBuf.push_back((char)DType::SInteger1);
                 sBuf.push_back((char)value.integer);
             }
-            else if (iValue > -32769)
+            else if (iValue > -32769 && iValue < 32768)
             {
                 sBuf.push_back((char)DType::SInteger2);
                 unsigned short wTmp = htons(static_cast<uint16_t>(value.integer));
                 sBuf.append(reinterpret_cast<char *>(&wTmp), sizeof(wTmp));
             }
-            else if (iValue > -2147483649)
+            else if (iValue > -2147483649 && iValue < 2147483648)
             {
                 sBuf.push_back((char)DType::SInteger4);
                 uint32_t dwTmp = htonl(static_cast<uint32_t>(value.integer));
-- 
2.43.0


From ce4dd37395fd35e176502b2ce856bad5d794a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 40/91] fix: integers of 20 characters are written to JSON and
 XML in full

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 71e8540..58c8c62 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -829,14 +829,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
@@ -982,14 +982,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
-- 
2.43.0


From 538dc1e2f8650debf9fad73f5f88a3a8a2922229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 41/91] fix: a JSON text that is a string gives that string

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 58c8c62..606c2d3 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -707,7 +707,7 @@ namespace lce
                 dwPos++;
 
                 this->initAsBuf();
-                this->m_value.buf->assign(sValue.data(), sValue.size(), true);
+                this->m_value.buf->assign(sValue);
             }
             else if (szBuf[dwPos] == 't')
             {
-- 
2.43.0


From f1395256a57b9b24012820631f983f67ef480357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 42/91] fix: a JSON number with an exponent and no fraction is
 a float

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 606c2d3..a7a8283 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -757,7 +757,7 @@ namespace lce
             {
                 string sValue;
                 readNumber(dwPos, sValue, szBuf, iSize);
-                if (sValue.find('.') != string::npos)
+                if (sValue.find_first_of(".eE") != string::npos)
                 {
                     double flValue = atof(sValue.c_str());
                     this->m_ucType = DType::Float;
@@ -1469,7 +1469,7 @@ namespace lce
                 {
                     string sValue;
                     readNumber(dwPos, sValue, szBuf, iSize);
-                    if (sValue.find('.') != string::npos)
+                    if (sValue.find_first_of(".eE") != string::npos)
                     {
                         double flValue = atof(sValue.c_str());
                         oValue.push_back(flValue);
@@ -1612,7 +1612,7 @@ namespace lce
                     {
                         string sValue;
                         readNumber(dwPos, sValue, szBuf, iSize);
-                        if (sValue.find('.') != string::npos)
+                        if (sValue.find_first_of(".eE") != string::npos)
                         {
                             double flValue = atof(sValue.c_str());
                             oValue[sKey] = flValue;
-- 
2.43.0


From 7f1d8900f8be8cb790c2209f90eb94860bf0ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 43/91] fix: a zero byte in a string is escaped in JSON

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index a7a8283..a757cd5 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -957,7 +957,7 @@ namespace lce
 
         static inline bool isControlCharacter(char ch)
         {
-            return ch > 0 && ch <= 0x1F;
+            return ch >= 0 && ch <= 0x1F;
         }
 
     public:
-- 
2.43.0


From 251cd7556f1e48a155d9365d347400823f823b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 44/91] fix: a surrogate pair in a JSON string is one character

---
 include/CAnyValue.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index a757cd5..700e5ab 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1344,6 +1344,17 @@ namespace lce
                     dwPos++;
                     uint32_t unicode = 0;
                     readUnicode(dwPos, szBuf, iSize, unicode);
+                    if (unicode >= 0xD800 && unicode <= 0xDBFF && dwPos + 2 < iSize && szBuf[dwPos + 1] == '\\' && szBuf[dwPos + 2] == 'u')
+                    {
+                        int dwLowPos = dwPos + 2;
+                        uint32_t low = 0;
+                        readUnicode(dwLowPos, szBuf, iSize, low);
+                        if (low >= 0xDC00 && low <= 0xDFFF)
+                        {
+                            unicode = 0x10000 + ((unicode - 0xD800) << 10) + (low - 0xDC00);
+                            dwPos = dwLowPos;
+                        }
+                    }
                     sValue.append(unicodeToUTF8(unicode));
                 }
                 else if (szBuf[dwPos] == '"')
-- 
2.43.0


From cb944a65f12c84d9be32214faf5419825e69d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 45/91] fix: decodeJSON does not read behind the text

---
 include/CAnyValue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 700e5ab..8eff8fc 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -686,6 +686,9 @@ namespace lce
         void decodeJSON(const char *szBuf, const size_t iSize)
         {
             int dwPos = 0;
+            // the parser looks one character ahead: let a zero follow the text
+            const std::string sText(szBuf, iSize);
+            szBuf = sText.c_str();
             this->clear();
             skipSpaces(dwPos, szBuf, iSize);
 
-- 
2.43.0


From 3568d826e3740981c61b7cf40077a1f5239d3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 46/91] fix: a JSON array or object which does not end is
 refused

---
 include/CAnyValue.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 8eff8fc..8f5407b 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1413,7 +1413,7 @@ namespace lce
                 if (szBuf[dwPos] == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 else if (szBuf[dwPos] == '{')
                 {
@@ -1506,7 +1506,7 @@ namespace lce
                 if (szBuf[dwPos] == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 else if (szBuf[dwPos] == ',')
                 {
@@ -1520,6 +1520,7 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+            throw runtime_error("unexpected end of text");
         }
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
@@ -1532,7 +1533,7 @@ namespace lce
                 if (szBuf[dwPos] == '}')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 if (szBuf[dwPos] == '"')
                 {
@@ -1652,7 +1653,7 @@ namespace lce
                     if (szBuf[dwPos] == '}')
                     {
                         dwPos++;
-                        break;
+                        return;
                     }
                     else if (szBuf[dwPos] == ',')
                     {
@@ -1674,6 +1675,7 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+            throw runtime_error("unexpected end of text");
         }
 
     private:
-- 
2.43.0


From 2e7078f2fd2b44663505bb5f6f3ccedebe89afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 47/91] fix: CAnyValue refuses data nested too deep for the
 stack

---
 include/CAnyValue.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 8f5407b..cfac383 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -895,6 +895,32 @@ namespace lce
         static std::vector<DECODE_FUNC> m_vecDecodeFuncs;
 
     private:
+        // counts how deep the decoders are nested: data of any depth must not use up the stack
+        class CNesting
+        {
+        public:
+            CNesting()
+            {
+                if (depth() >= MAX_NESTING)
+                {
+                    throw Error("decode data error: nested too deep.");
+                }
+                ++depth();
+            }
+            ~CNesting() { --depth(); }
+
+        private:
+            enum
+            {
+                MAX_NESTING = 1000
+            };
+            static int &depth()
+            {
+                static __thread int iDepth = 0;
+                return iDepth;
+            }
+        };
+
         static void inline check(const size_t dwPos, const size_t sDataSize)
         {
             if (dwPos > sDataSize)
@@ -1405,6 +1431,7 @@ namespace lce
 
         static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CNesting oNesting;
             oValue.initAsVector();
 
             while (dwPos < iSize)
@@ -1525,6 +1552,7 @@ namespace lce
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CNesting oNesting;
             oValue.initAsMap();
 
             while (dwPos < iSize)
@@ -1813,6 +1841,7 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            CNesting oNesting;
             this->clear();
             check(dwDecodePos + 1, dwDataSize);
             m_ucSubType = *(pData + dwDecodePos);
-- 
2.43.0


From 49eea1eafda08a16308612a0cfe025f22c84014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 48/91] fix: a float of 16 digits is written as a JSON number

---
 include/CAnyValue.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index cfac383..859a40a 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -846,9 +846,7 @@ namespace lce
             break;
             case DType::Float:
             {
-                char buffer[32];
-                snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
-                sBuf += buffer;
+                appendFloat(sBuf, m_value.flValue);
             }
             break;
             case DType::String:
@@ -929,6 +927,17 @@ namespace lce
             }
         }
 
+        static void appendFloat(std::string &sDesc, const double flValue)
+        {
+            char buffer[32];
+            int iLen = snprintf(buffer, sizeof(buffer), "%#.16g", flValue);
+            sDesc += buffer;
+            if (iLen > 0 && buffer[iLen - 1] == '.')
+            {
+                sDesc += "0"; // a digit must follow the point
+            }
+        }
+
         static void textEncodeJSON(std::string &sDesc, const char *sSrc, size_t iSize)
         {
             for (size_t i = 0; i < iSize; i++)
@@ -1025,9 +1034,7 @@ namespace lce
             break;
             case DType::Float:
             {
-                char buffer[32];
-                snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
-                sBuf += buffer;
+                appendFloat(sBuf, m_value.flValue);
             }
             break;
             case DType::String:
-- 
2.43.0


From fc877b32ff6b3ba7333a81504a819c8e5726fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 49/91] fix: the files of the last request are not those of the
 next

---
 include/CHttpReader.h | 1 +
 src/CHttpReader.cpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/CHttpReader.h b/include/CHttpReader.h
index 0e846db..4b76d2f 100755
--- a/include/CHttpReader.h
+++ b/include/CHttpReader.h
@@ -128,6 +128,7 @@ namespace lce
 			m_sHttpContent.clear();
 			m_sFile.clear();
 			m_sFileName.clear();
+			m_mapFiles.clear();
 		}
 
 	private:
diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b2a3235..f72657b 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -173,6 +173,7 @@ namespace lce
 		m_mapHeadInfo.clear();
 		m_sFile.clear();
 		m_sFileName.clear();
+		m_mapFiles.clear();
 	}
 
 	string &CHttpReader::getCookie(const string &sName, string &sValue, const string &sDefVal) const
-- 
2.43.0


From feeca0579d93cbae3961b86353f106abde58f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 50/91] fix: an empty value of a multipart form is empty

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index f72657b..f39dda3 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -435,7 +435,7 @@ namespace lce
 				break;
 			}
 			sValue = sNV.substr(pos + 4);
-			if (sValue.size() > 2)
+			if (sValue.size() >= 2)
 			{
 				sValue.erase(sValue.size() - 2);
 			}
-- 
2.43.0


From 7c9e612e6e321b3df212c6b47bc243c92e028ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 51/91] fix: the values of a multipart form are not URL coded

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index f39dda3..7645557 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -439,7 +439,7 @@ namespace lce
 			{
 				sValue.erase(sValue.size() - 2);
 			}
-			m_mapValueList[sName] = FormUrlDecode(sValue);
+			m_mapValueList[sName] = sValue;
 			m_sFileName = getStrBetween(sNV, 0, "filename=\"", "\"", pos);
 			if (pos == string::npos || m_sFileName.empty())
 			{
-- 
2.43.0


From dae6c31a8ed0c3568b3e24c889e8b34020705cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 52/91] fix: the data of an uploaded file begins after its
 headers

---
 src/CHttpReader.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 7645557..3591856 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -456,13 +456,7 @@ namespace lce
 
 			MAP_FILE::iterator it = m_mapFiles.find(sName);
 
-			it->second.sData = sNV.substr(pos + sFileType.size() + 4);
-
-			if (it->second.sData.size() > 2)
-			{
-				it->second.sData.erase(it->second.sData.size() - 2);
-			}
-
+			it->second.sData = sValue;
 			it->second.sContentType = sFileType;
 			it->second.sName = m_sFileName;
 		}
-- 
2.43.0


From 73f4986a0def6ff7065ef978e01768337c98eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 53/91] fix: a multipart form is not read as an URL coded one
 too

---
 src/CHttpReader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 3591856..f0da6e9 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -151,13 +151,16 @@ namespace lce
 		}
 
 		this->parseCookies();
-		this->parseValues();
 
 		if (m_nCommand == POST && !sBoundary.empty())
 		{
 			sBoundary.insert(0, "--");
 			this->parsePostFormData(sBoundary, headEndPos);
 		}
+		else
+		{
+			this->parseValues();
+		}
 
 		return bOk;
 	}
-- 
2.43.0


From 43f222c3abe01f326d40d18d36352fd5465fae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 54/91] fix: a header line needs no blank after its colon

---
 src/CHttpReader.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index f0da6e9..e453f72 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -129,7 +129,9 @@ namespace lce
 			sLine = m_sHttpContent.substr(pos1, pos2 - pos1);
 			pos1 = pos2 + 2;
 
-			colonPos = sLine.find(": ");
+			colonPos = sLine.find(':');
+			if (colonPos == string::npos)
+				continue;
 			sName = sLine.substr(0, colonPos);
 			if (sName.empty())
 			{
@@ -137,7 +139,9 @@ namespace lce
 				return false;
 			}
 
-			sValue = sLine.substr(colonPos + 2);
+			// blanks after the colon are optional
+			colonPos = sLine.find_first_not_of(" \t", colonPos + 1);
+			sValue = colonPos == string::npos ? "" : sLine.substr(colonPos);
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
 			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
-- 
2.43.0


From 45a5f4f9ea36c6e839ca1f96d1d911cae0e5cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 55/91] fix: the Content-Type of a multipart form may be
 written in any case

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index e453f72..e11defb 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -144,7 +144,7 @@ namespace lce
 			sValue = colonPos == string::npos ? "" : sLine.substr(colonPos);
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
-			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
+			if (sBoundary.empty() && toLower(sName.c_str()) == "content-type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
 			{
 				sBoundary = sValue.substr(BOUNDARY_STR.length());
 			}
-- 
2.43.0


From 4023ccdd50551fca0515ff0ede9f32f4f68f77da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 56/91] fix: FormUrlDecode does not throw for an incomplete
 escape

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index c41b093..40b5657 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -530,7 +530,7 @@ namespace lce
             {
                 sResult += ' ';
             }
-            else if (ch == '%')
+            else if (ch == '%' && j + 2 < iLen)
             {
                 char szTmpStr[] = "0x000";
                 int iChNum;
-- 
2.43.0


From 15590f095e7a48678f70b7cb83fca22891a01b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 57/91] fix: a new CHttpWriter is initialised

---
 include/CHttpWriter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index f7d1b95..647e556 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -47,8 +47,7 @@ namespace lce
 	public:
 		CHttpWriter(void)
 		{
-			m_dwSetBodyLen = 0;
-			m_dwLastModified = 0;
+			begin();
 		}
 		~CHttpWriter(void)
 		{
-- 
2.43.0


From abbd201502049e604c64e380d721e02400aa0b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 58/91] fix: CHttpWriter::begin() forgets the headers of the
 last response

---
 src/CHttpWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1e06edd..fb315cc 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -106,6 +106,7 @@ namespace lce
 	void CHttpWriter::begin()
 	{
 		m_mapCookie.clear();
+		m_mapHead.clear();
 		m_sBodyContent.erase();
 		m_iStatusCode = 200;
 		m_sConnection = "Close";
-- 
2.43.0


From 6be747147e9c8e07469a49639193e9463e226eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 59/91] fix: CHttpWriter does not cut long headers

---
 src/CHttpWriter.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index fb315cc..9742df5 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,8 +27,7 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		snprintf(szTmp, sizeof(szTmp), "Connection: %s\r\n", m_sConnection.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
 		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
@@ -48,14 +47,12 @@ namespace lce
 
 		if (!m_sCacheControl.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "Cache-Control: %s\r\n", m_sCacheControl.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
 		if (!m_sETag.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "ETag: %s\r\n", m_sETag.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
@@ -75,8 +72,7 @@ namespace lce
 
 		for (MAP_HEAD::const_iterator it = m_mapHead.begin(); it != m_mapHead.end(); ++it)
 		{
-			snprintf(szTmp, sizeof(szTmp), "%s: %s\r\n", it->first.c_str(), it->second.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += it->first + ": " + it->second + "\r\n";
 		}
 
 		// set cookie
@@ -98,8 +94,7 @@ namespace lce
 		}
 
 		// html head end
-		snprintf(szTmp, sizeof(szTmp), "Content-Type: %s\r\n\r\n", m_sContentType.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
-- 
2.43.0


From d1b65a66ff67a3df6a81023bd0f3bb404746ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 60/91] fix: SplitStr skips the whole separator

---
 include/StringHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index e340b72..00b5422 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -50,10 +50,10 @@ namespace lce
 		size_t start = 0;
 		size_t end = 0;
 
-		while ((end = str.find(separator, start)) != string::npos)
+		while (!separator.empty() && (end = str.find(separator, start)) != string::npos)
 		{
 			result.push_back(str.substr(start, end - start));
-			start = end + 1;
+			start = end + separator.size();
 		}
 
 		result.push_back(str.substr(start));
-- 
2.43.0


From f61b7b9e9c0fad14696811ea2698ab361b0c3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 61/91] fix: GetGMTDate may be called by several threads

---
 src/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 40b5657..93007ed 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -200,7 +200,8 @@ namespace lce
     std::string GetGMTDate(const time_t &cur)
     {
         char buf[256];
-        struct tm *gt = gmtime(&cur);
+        struct tm tmBuf;
+        struct tm *gt = gmtime_r(&cur, &tmBuf);
         snprintf(buf, sizeof(buf), "%s, %02d %s %04d %02d:%02d:%02d GMT",
                  days[gt->tm_wday],
                  gt->tm_mday,
-- 
2.43.0


From 07fe9e7fe83ec6c16dd52d40dd8b48e7f7a5cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 62/91] fix: Gmt2Time does not read past the end of a cut date

---
 src/Utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 93007ed..03bcd7b 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -339,6 +339,8 @@ namespace lce
         GC;
         if (c == ' ')
             GC;
+        if (!isdigit(c))
+            return BAD;
         if (day == -1)
         {
             day = c - '0';
-- 
2.43.0


From e322f72fc9774b2ee81cf2292ceaaf570fe40ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:37 +0000
Subject: [PATCH 63/91] fix: Gmt2Time does not overflow for dates after 2038

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 03bcd7b..ce529db 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -430,7 +430,7 @@ namespace lce
         if (month > 10)
             year--;
         year = year * 365 + year / 4 + month * 520 / 17 + day;
-        return year * 86400 + sec - 60652800;
+        return (time_t)year * 86400 + sec - 60652800;
     }
 
     std::string FormUrlEncode(const std::string &sSrc)
-- 
2.43.0


From 279f72b297df240a7a152abcafd0ccffe50b51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 64/91] fix: the data of a form part is not searched for
 headers

---
 src/CHttpReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index e11defb..6f8cf76 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -442,6 +442,8 @@ namespace lce
 				break;
 			}
 			sValue = sNV.substr(pos + 4);
+			// what the data looks like does not matter
+			sNV.erase(pos + 2);
 			if (sValue.size() >= 2)
 			{
 				sValue.erase(sValue.size() - 2);
-- 
2.43.0


From 3deb4ff4ea96d43dfdc92243a0092ffcbb96d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:09 +0000
Subject: [PATCH 65/91] fix: a form part of one byte does not throw

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 6f8cf76..f549dae 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -417,7 +417,7 @@ namespace lce
 			string::size_type pos = 0;
 			string sNV = getStrBetween(m_sHttpContent, pos1, sBoundary, sBoundary, pos);
 
-			if (pos == string::npos || sNV.empty())
+			if (pos == string::npos || sNV.size() < 2)
 			{
 				break;
 			}
-- 
2.43.0


From daacd5a73eab6796ac621290076fd166edb90afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 66/91] fix: log lines are not lost, repeated, merged or
 reordered when a buffer is full or flushed by two threads

---
 include/CAsyncLog.h |  9 ++++++-
 src/CAsyncLog.cpp   | 63 ++++++++++++++++++++++-----------------------
 2 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 3c7ad8c..c690733 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -74,13 +74,19 @@ namespace lce
 
 		bool writeBuffer(const std::string &str, const bool bEnd = true);
 
+		// the buffer which is not the current one, it holds older lines or none
+		CLogBuffer *otherBuffer()
+		{
+			return m_poCurWirteBuffer == m_poWriteBuffer1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+		}
+
 	private:
 		char m_szErrMsg[1024];
 
 		CLogBuffer *m_poWriteBuffer1;
 		CLogBuffer *m_poWriteBuffer2;
 		CLogBuffer *m_poCurWirteBuffer;
-		volatile int m_iCurWriteBufferFlag;
+		bool m_bFlushing; // the other buffer is being written to the file
 
 		std::string m_sCurDate;
 
@@ -92,6 +98,7 @@ namespace lce
 		unsigned int m_uiLogFileNum;
 		bool m_bShowCmd;
 		lce::CMutex m_mutex;
+		lce::CMutex m_oFlushMutex;
 	};
 
 };
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 413b4ec..c314820 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -33,7 +33,7 @@ namespace lce
 		m_poWriteBuffer2->init(dwBufSize);
 		m_poCurWirteBuffer = m_poWriteBuffer1;
 		m_iLogSecs = iLogSecs;
-		m_iCurWriteBufferFlag = 1;
+		m_bFlushing = false;
 
 		start();
 
@@ -166,7 +166,12 @@ namespace lce
 		{
 			usleep(100000);
 
-			if ((iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poCurWirteBuffer->full())
+			m_mutex.lock();
+			bool bFull = m_poCurWirteBuffer->full() || !otherBuffer()->empty();
+			bool bEmpty = m_poCurWirteBuffer->empty();
+			m_mutex.unlock();
+
+			if ((iMillSecs >= m_iLogSecs * 1000 && !bEmpty) || bFull)
 			{
 				flush();
 				iMillSecs = 0;
@@ -178,24 +183,30 @@ namespace lce
 
 	void CAsyncLog::flush()
 	{
-		if (m_iCurWriteBufferFlag == 1)
+		CAutoLock oFlushLock(m_oFlushMutex);
+
+		bool bLast = false;
+		while (!bLast)
 		{
 			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer2;
+			CLogBuffer *pBuffer = otherBuffer();
+			bLast = pBuffer->empty();
+			if (bLast)
+			{
+				std::swap(m_poCurWirteBuffer, pBuffer);
+			}
+			m_bFlushing = true;
 			m_mutex.unlock();
 
-			writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
-			m_poWriteBuffer1->reset();
-			m_iCurWriteBufferFlag = 2;
-		}
-		else if (m_iCurWriteBufferFlag == 2)
-		{
+			if (!pBuffer->empty())
+			{
+				writeFile(pBuffer->data(), pBuffer->size(), false);
+			}
+
 			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer1;
+			pBuffer->reset();
+			m_bFlushing = false;
 			m_mutex.unlock();
-			writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
-			m_poWriteBuffer2->reset();
-			m_iCurWriteBufferFlag = 1;
 		}
 	}
 
@@ -209,27 +220,15 @@ namespace lce
 			std::cout << str << std::endl;
 		}
 
-		CLogBuffer *pWriteBuffer = m_poCurWirteBuffer;
-
-		bool bFlag = pWriteBuffer->write(str.data(), str.size());
+		const std::string sLine = bEnd ? str + "\n" : str;
 
-		if (!bFlag)
-		{
-			if (m_poCurWirteBuffer == m_poWriteBuffer1)
-			{
-				bFlag = m_poWriteBuffer2->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer2;
-			}
-			else if (m_poCurWirteBuffer == m_poWriteBuffer2)
-			{
-				bFlag = m_poWriteBuffer1->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer1;
-			}
-		}
+		bool bFlag = m_poCurWirteBuffer->write(sLine.data(), sLine.size());
 
-		if (bEnd && bFlag)
+		// go on in the other buffer, unless it still has lines to be written to the file
+		if (!bFlag && !m_bFlushing && otherBuffer()->empty() && otherBuffer()->write(sLine.data(), sLine.size()))
 		{
-			pWriteBuffer->write("\n", 1);
+			m_poCurWirteBuffer = otherBuffer();
+			bFlag = true;
 		}
 
 		if (!bFlag)
-- 
2.43.0


From 3480e8d8bc2d86fd9f7127bba44943dd9b758f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 67/91] fix: CAsyncLog ends its thread and writes what is left
 before it frees its buffers

---
 include/CAsyncLog.h |  2 ++
 src/CAsyncLog.cpp   | 20 +++++++++++++++++++-
 src/CThread.cpp     |  4 +++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index c690733..13f0ddc 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -23,6 +23,7 @@ namespace lce
 	{
 
 	public:
+		CAsyncLog(void);
 		~CAsyncLog(void);
 
 		bool init(const std::string &sLogFilePath = "", int iLogSecs = 1, const unsigned long dwLogFileMaxSize = 1024 * 1024 * 10, const unsigned int uiLogFileNum = 5, const bool bShowCmd = false, const unsigned long dwBufSize = 1024 * 1024);
@@ -86,6 +87,7 @@ namespace lce
 		CLogBuffer *m_poWriteBuffer1;
 		CLogBuffer *m_poWriteBuffer2;
 		CLogBuffer *m_poCurWirteBuffer;
+		volatile bool m_bExit;
 		bool m_bFlushing; // the other buffer is being written to the file
 
 		std::string m_sCurDate;
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index c314820..11b1714 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -3,8 +3,26 @@
 namespace lce
 {
 
+	CAsyncLog::CAsyncLog()
+	{
+		m_poWriteBuffer1 = NULL;
+		m_poWriteBuffer2 = NULL;
+		m_poCurWirteBuffer = NULL;
+		m_bExit = false;
+		m_bFlushing = false;
+	}
+
 	CAsyncLog::~CAsyncLog()
 	{
+		// the thread uses the buffers
+		m_bExit = true;
+		join();
+
+		if (m_poCurWirteBuffer != NULL)
+		{
+			flush();
+		}
+
 		if (m_ofsOutFile.is_open())
 		{
 			m_ofsOutFile.close();
@@ -162,7 +180,7 @@ namespace lce
 	int CAsyncLog::run()
 	{
 		int iMillSecs = 0;
-		while (true)
+		while (!m_bExit)
 		{
 			usleep(100000);
 
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 81950de..564c572 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -49,7 +49,9 @@ namespace lce
     {
         if (m_iId > 0)
         {
-            return pthread_join(m_iId, NULL);
+            int iRet = pthread_join(m_iId, NULL);
+            m_iId = 0; // the thread is gone
+            return iRet;
         }
 
         return 0;
-- 
2.43.0


From da166ca37b27ce8d58f5e99c6cc5dfd342d87ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 68/91] fix: the times of log lines may be taken by several
 threads

---
 include/CAsyncLog.h | 4 ++--
 include/CFileLog.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 13f0ddc..2c94b53 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -53,7 +53,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -64,7 +64,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
diff --git a/include/CFileLog.h b/include/CFileLog.h
index 96fdb73..212096a 100644
--- a/include/CFileLog.h
+++ b/include/CFileLog.h
@@ -66,7 +66,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -77,7 +77,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
-- 
2.43.0


From 06fea01ed05d02bd20256d23bcffa493a0151d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 69/91] fix: a log of one file does not grow beyond its limit

---
 src/CAsyncLog.cpp | 5 ++++-
 src/CFileLog.cpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 11b1714..4ee00a3 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -83,7 +83,10 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			if (m_uiLogFileNum > 1)
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			else
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s", m_sLogFilePath.c_str());
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index ec3ecc3..be3e866 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -46,7 +46,10 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			if (m_uiLogFileNum > 1)
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			else
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s", m_sLogFilePath.c_str());
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
-- 
2.43.0


From 8552fe5d20d349b808c15a95d18708a4c2d8c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 70/91] fix: setting a cell of a bitmap of 3, 5 or 6 bits
 changes no other cell and nothing behind the bitmap

---
 include/CBitMap.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8c89402..73249a8 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -10,6 +10,21 @@ namespace lce
 	{
 	};
 
+	// eight cells of 3 or 5 bits, or four of 6, are in 3 or 5 bytes: nothing beside them may be read or written
+	inline uint64_t bitmapLoad(const char *pData, const int iBytes)
+	{
+		uint64_t ui64Val = 0;
+		for (int i = 0; i < iBytes; i++)
+			ui64Val |= (uint64_t)(unsigned char)pData[i] << (8 * i);
+		return ui64Val;
+	}
+
+	inline void bitmapStore(char *pData, const int iBytes, const uint64_t ui64Val)
+	{
+		for (int i = 0; i < iBytes; i++)
+			pData[i] = (char)(ui64Val >> (8 * i));
+	}
+
 	// 0-1
 	template <>
 	class CBitmap<1>
@@ -272,7 +287,7 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) >> (dwIndex % 8 * 3);
+			unsigned long dwTmpValue = bitmapLoad(m_pDataPtr + (dwIndex / 8) * 3, 3) >> (dwIndex % 8 * 3);
 			dwTmpValue = dwTmpValue & 0x7;
 			return dwTmpValue;
 		}
@@ -292,8 +307,8 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 3);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) |= dwFlag;				   //
+			char *pData = m_pDataPtr + (dwIndex / 8) * 3;
+			bitmapStore(pData, 3, (bitmapLoad(pData, 3) & caUinFlag[iIndexBitPos]) | dwFlag);
 
 			return true;
 		}
@@ -471,7 +486,7 @@ namespace lce
 				return false;
 			}
 
-			uint64_t ui64TmpValue = *(int64_t *)(m_pDataPtr + (dwIndex / 8) * 5) >> (dwIndex % 8 * 5);
+			uint64_t ui64TmpValue = bitmapLoad(m_pDataPtr + (dwIndex / 8) * 5, 5) >> (dwIndex % 8 * 5);
 			ui64TmpValue = ui64TmpValue & 0x1F;
 			return (int)ui64TmpValue;
 		}
@@ -491,8 +506,8 @@ namespace lce
 
 			ui64Flag = ui64Flag << (iIndexBitPos * 5);
 
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) |= ui64Flag;				  //
+			char *pData = m_pDataPtr + (dwIndex / 8) * 5;
+			bitmapStore(pData, 5, (bitmapLoad(pData, 5) & caUinFlag[iIndexBitPos]) | ui64Flag);
 
 			return true;
 		}
@@ -570,7 +585,7 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) >> (dwIndex % 4 * 6);
+			unsigned long dwTmpValue = bitmapLoad(m_pDataPtr + (dwIndex / 4) * 3, 3) >> (dwIndex % 4 * 6);
 			dwTmpValue = dwTmpValue & 0x3F;
 			return dwTmpValue;
 		}
@@ -590,8 +605,8 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 6);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) |= dwFlag;				   //
+			char *pData = m_pDataPtr + (dwIndex / 4) * 3;
+			bitmapStore(pData, 3, (bitmapLoad(pData, 3) & caUinFlag[iIndexBitPos]) | dwFlag);
 
 			return true;
 		}
-- 
2.43.0


From 454513b15d05179a6789f0f9f43369afcaf660da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 71/91] fix: a bitmap has no cell behind its last one

---
 include/CBitMap.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 73249a8..5f7a3a6 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -80,7 +80,7 @@ namespace lce
 
 		bool get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -97,7 +97,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f};
 			char cFlag = bVal ? 1 : 0;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -182,7 +182,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -199,7 +199,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -282,7 +282,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -298,7 +298,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -381,7 +381,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -398,7 +398,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -481,7 +481,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -497,7 +497,7 @@ namespace lce
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
 			uint64_t ui64Flag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -580,7 +580,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -596,7 +596,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -678,7 +678,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -688,7 +688,7 @@ namespace lce
 
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
-- 
2.43.0


From 1b17de8e37e4876b463dfab612c19ee6f04c9d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 72/91] fix: a value too large for a cell of a bitmap does not
 change its neighbours

---
 include/CBitMap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 5f7a3a6..0cba506 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -197,7 +197,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0x3;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -296,7 +296,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x7;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -396,7 +396,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0x0F;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -495,7 +495,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
-			uint64_t ui64Flag = ucVal;
+			uint64_t ui64Flag = ucVal & 0x1F;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -594,7 +594,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x3F;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
-- 
2.43.0


From 450ebf3646f5c0d220acb77527bf503577ead2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 73/91] fix: CPackage can be assigned

---
 include/CPackage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a1b8b5f..7025ca9 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -55,7 +55,7 @@ namespace lce
 		{
 			if (this != &rhs)
 			{
-				this->assign();
+				this->assign(rhs);
 			}
 
 			return *this;
-- 
2.43.0


From 9b97fcf2791869acedaaa280e96449c86c99662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 74/91] fix: CPackage reads nothing behind its data

---
 include/CPackage.h | 54 ++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 7025ca9..028c792 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -364,7 +364,7 @@ namespace lce
 
 		this_type &operator>>(unsigned char &ucVal)
 		{
-			if (sizeof(unsigned char) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(unsigned char) <= left())
 			{
 				memcpy(&ucVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(ucVal));
 			}
@@ -377,7 +377,7 @@ namespace lce
 		}
 		this_type &operator>>(char &cVal)
 		{
-			if (sizeof(char) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(char) <= left())
 			{
 				memcpy(&cVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(cVal));
 			}
@@ -391,7 +391,7 @@ namespace lce
 
 		this_type &operator>>(unsigned short &wVal)
 		{
-			if (sizeof(unsigned short) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(unsigned short) <= left())
 			{
 				memcpy(&wVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(wVal));
 				wVal = ntohs(wVal);
@@ -405,7 +405,7 @@ namespace lce
 		}
 		this_type &operator>>(short &wVal)
 		{
-			if (sizeof(short) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(short) <= left())
 			{
 				memcpy(&wVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(wVal));
 				wVal = ntohs(wVal);
@@ -420,7 +420,7 @@ namespace lce
 
 		this_type &operator>>(unsigned int &uiVal)
 		{
-			if (sizeof(unsigned int) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(unsigned int) <= left())
 			{
 				memcpy(&uiVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(uiVal));
 				uiVal = ntohl(uiVal);
@@ -434,7 +434,7 @@ namespace lce
 		}
 		this_type &operator>>(int &iVal)
 		{
-			if (sizeof(int) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(int) <= left())
 			{
 				memcpy(&iVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(iVal));
 				iVal = ntohl(iVal);
@@ -449,7 +449,7 @@ namespace lce
 
 		this_type &operator>>(unsigned long long &ddwVal)
 		{
-			if (sizeof(unsigned long long) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(unsigned long long) <= left())
 			{
 				memcpy(&ddwVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(ddwVal));
 				ddwVal = ntohll(ddwVal);
@@ -463,7 +463,7 @@ namespace lce
 		}
 		this_type &operator>>(long long &ddwVal)
 		{
-			if (sizeof(long long) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(long long) <= left())
 			{
 				memcpy(&ddwVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(ddwVal));
 				ddwVal = ntohll(ddwVal);
@@ -479,7 +479,7 @@ namespace lce
 #ifdef __x86_64__
 		this_type &operator>>(unsigned long &ddwVal)
 		{
-			if (sizeof(unsigned long) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(unsigned long) <= left())
 			{
 				memcpy(&ddwVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(ddwVal));
 				ddwVal = ntohll(ddwVal);
@@ -493,7 +493,7 @@ namespace lce
 		}
 		this_type &operator>>(long &ddwVal)
 		{
-			if (sizeof(long) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(long) <= left())
 			{
 				memcpy(&ddwVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(ddwVal));
 				ddwVal = ntohll(ddwVal);
@@ -510,7 +510,7 @@ namespace lce
 
 		this_type &operator>>(unsigned long &dwVal)
 		{
-			if (sizeof(unsigned long) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(unsigned long) <= left())
 			{
 				memcpy(&dwVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(dwVal));
 				dwVal = ntohl(dwVal);
@@ -524,7 +524,7 @@ namespace lce
 		}
 		this_type &operator>>(long &dwVal)
 		{
-			if (sizeof(long) <= (m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (sizeof(long) <= left())
 			{
 				memcpy(&dwVal, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, sizeof(dwVal));
 				dwVal = ntohl(dwVal);
@@ -540,7 +540,7 @@ namespace lce
 
 		void read(char *pszBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && static_cast<size_t>(iReadLen) <= left())
 			{
 				memcpy(pszBuf, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -553,7 +553,7 @@ namespace lce
 
 		void read(std::string &sBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && static_cast<size_t>(iReadLen) <= left())
 			{
 				sBuf.assign(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -566,15 +566,20 @@ namespace lce
 
 		void readString(std::string &sData)
 		{
-			const char *pData = m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos;
-			int iStrLen = strlen(pData);
-			sData = pData;
-			m_iPos += iStrLen + 1;
+			size_t dwLeft = left();
+			const char *pData = dwLeft > 0 ? m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos : NULL;
+			const char *pEnd = dwLeft > 0 ? static_cast<const char *>(memchr(pData, 0, dwLeft)) : NULL;
+			if (pEnd == NULL)
+			{
+				throw Error("data error:no enough buf.");
+			}
+			sData.assign(pData, pEnd - pData);
+			m_iPos += static_cast<int>(sData.size()) + 1;
 		}
 
 		void readString1(std::string &sData)
 		{
-			if (1 <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (1 <= left())
 			{
 				unsigned char ucLen = *(unsigned char *)(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos);
 				++m_iPos;
@@ -588,7 +593,7 @@ namespace lce
 
 		void readString2(std::string &sData)
 		{
-			if (2 <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (2 <= left())
 			{
 				unsigned short wLen = ntohs(*(unsigned short *)(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos));
 				m_iPos += 2;
@@ -603,7 +608,7 @@ namespace lce
 		void readString4(std::string &sData)
 		{
 
-			if (4 <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (4 <= left())
 			{
 				unsigned int dwLen = ntohl(*(unsigned int *)(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos));
 				m_iPos += 4;
@@ -696,6 +701,13 @@ namespace lce
 		PKG_HEAD &head() { return *(PKG_HEAD *)m_pkgData.data(); }
 
 	private:
+		// bytes of the body not yet read
+		size_t left() const
+		{
+			size_t dwUsed = sizeof(PKG_HEAD) + m_iPos;
+			return m_pkgData.size() > dwUsed ? m_pkgData.size() - dwUsed : 0;
+		}
+
 		void assign(const this_type &rhs)
 		{
 			m_pkgData = rhs.m_pkgData;
-- 
2.43.0


From a782039ae78284240fbb24c0b925d7535982eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 75/91] fix: CPackage::seek does not leave the body

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 028c792..a650cce 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -639,14 +639,14 @@ namespace lce
 				}
 				break;
 			case S_CUR:
-				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) > iOffPos && m_iPos + iOffPos >= 0)
+				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) > m_iPos + iOffPos && m_iPos + iOffPos >= 0)
 				{
 					m_iPos += iOffPos;
 					bOk = true;
 				}
 				break;
 			case S_END:
-				if (iOffPos <= 0 && (int)m_pkgData.size() > abs(iOffPos))
+				if (iOffPos <= 0 && (int)(m_pkgData.size() - sizeof(PKG_HEAD)) >= -iOffPos)
 				{
 
 					m_iPos = (int)m_pkgData.size() - sizeof(PKG_HEAD) + iOffPos;
-- 
2.43.0


From 598023fc5c131aab1700321976fe7eb1dec8be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 76/91] fix: a CPackage always has its head

---
 include/CPackage.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index a650cce..4681c0d 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -37,6 +37,10 @@ namespace lce
 			{
 				throw Error("pszPkgData is null.");
 			}
+			else if (static_cast<int>(sizeof(PKG_HEAD)) > iLen)
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData.erase();
 			m_pkgData.assign((char *)pszPkgData, iLen);
@@ -82,6 +86,10 @@ namespace lce
 
 		void setPkgData(const std::string sData)
 		{
+			if (sizeof(PKG_HEAD) > sData.size())
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData = sData;
 		}
-- 
2.43.0


From 02cc33e923014b45f9a8562ed16d2e66d5d40db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 77/91] fix: characters can be written to a CPackage with <<

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 4681c0d..bdb210b 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -290,12 +290,12 @@ namespace lce
 
 		this_type &operator<<(const unsigned char ucVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&ucVal), sizeof(unsigned char));
+			m_pkgData.append(reinterpret_cast<const char *>(&ucVal), sizeof(unsigned char));
 			return *this;
 		}
 		this_type &operator<<(const char cVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&cVal), sizeof(char));
+			m_pkgData.append(reinterpret_cast<const char *>(&cVal), sizeof(char));
 			return *this;
 		}
 
-- 
2.43.0


From c65504df0154af1f5865024d50eae296295160a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 78/91] fix: blanks before a comment or a section of a
 configuration file do not hide it

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 93ff6cf..a53adf1 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -37,7 +37,7 @@ namespace lce
 			size_t i = 0;
 			for (i = 0; i < sLine.size(); i++)
 			{
-				if (sLine[i] != ' ' || sLine[i] != '\t')
+				if (sLine[i] != ' ' && sLine[i] != '\t')
 				{
 					break;
 				}
-- 
2.43.0


From d75859561324f0c4d2768bcd89062f74fd2361b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 79/91] fix: a line of a configuration file without = sets
 nothing

---
 src/CConfig.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index a53adf1..650b79e 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -60,14 +60,11 @@ namespace lce
 						break;
 					}
 				}
-				else
-				{
-					break;
-				}
+				break;
 			}
 			default:
 				size_t j = sLine.find('=', i);
-				if (j > i)
+				if (j != std::string::npos && j > i)
 				{
 					sName = sLine.substr(i, j - i);
 
-- 
2.43.0


From b184cd4ab64790d225e717dabfbfbc580251925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 80/91] fix: CConfig reads an unsigned long over its whole
 range

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 650b79e..180a82c 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -172,7 +172,7 @@ namespace lce
 			if (subIt != it->second.end())
 			{
 
-				dwValue = static_cast<unsigned long>(atoll(subIt->second.c_str()));
+				dwValue = strtoul(subIt->second.c_str(), NULL, 10);
 			}
 		}
 		return dwValue;
-- 
2.43.0


From 6e729b9d96f64308474be2aa19e87ec9f210d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 81/91] fix: the shortest addresses in a configuration file are
 read

---
 src/CConfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 180a82c..d7aa412 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -222,7 +222,7 @@ namespace lce
 
 		std::string sIPAndPort("");
 		getValue(sApp, sName, sIPAndPort, "");
-		if (sIPAndPort.size() >= 10)
+		if (sIPAndPort.size() >= 9)
 		{
 			std::string::size_type ID = sIPAndPort.find(":");
 			if (ID != std::string::npos)
@@ -255,7 +255,7 @@ namespace lce
 
 		std::string sServerList("");
 		getValue(sApp, sName, sServerList, "");
-		if (sServerList.size() >= 10)
+		if (sServerList.size() >= 9)
 		{
 			std::string::size_type id0 = 0, id1 = 0;
 			while (1)
-- 
2.43.0


From 992e049b404bb415506e338be50c0278b3c39e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 82/91] fix: a CTcpConnector which is connected at once can be
 read

---
 src/CTcpConnector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 93bbad4..617de52 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -57,6 +57,7 @@ namespace lce
 		{
 			flag &= ~O_NONBLOCK;
 			fcntl(m_iFd, F_SETFL, flag); // 设置阻塞
+			m_bConnect = true;
 			return true;
 		}
 
-- 
2.43.0


From df1faf3e170b4761c1c26d0dd1d637217ad56181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 83/91] fix: CTcpConnector connects also when its descriptor is
 larger than FD_SETSIZE

---
 src/CTcpConnector.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 617de52..cdcdb5b 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -7,6 +7,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 
 namespace lce
@@ -69,21 +70,15 @@ namespace lce
 		}
 		else
 		{
-			struct timeval tv;
-
-			tv.tv_sec = m_dwTimeout / 1000;
-			tv.tv_usec = (m_dwTimeout % 1000) * 1000;
-
-			fd_set set, rset;
-			FD_ZERO(&set);
-			FD_ZERO(&rset);
-			FD_SET(m_iFd, &set);
-			FD_SET(m_iFd, &rset);
-			ret = select(m_iFd + 1, &rset, &set, NULL, &tv);
+			struct pollfd pfd;
+			pfd.fd = m_iFd;
+			pfd.events = POLLIN | POLLOUT;
+			pfd.revents = 0;
+			ret = poll(&pfd, 1, (int)m_dwTimeout);
 
 			if (ret < 0)
 			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:select error(%d):%s.", errno, strerror(errno));
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:poll error(%d):%s.", errno, strerror(errno));
 				close();
 				return false;
 			}
-- 
2.43.0


From 2a9cd1ec439b74d7aee9b5fa1f23955d4c2df20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 84/91] fix: CUdpConnector::write returns -1 for an error

---
 src/CUdpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 6b85fac..0af6deb 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -105,7 +105,7 @@ namespace lce
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "sendto error:%s", strerror(errno));
-			return false;
+			return -1;
 		}
 
 		return iSendLen;
-- 
2.43.0


From dd4229c83e9beaacb814a6c9779b793ff6a63700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 85/91] fix: CUdpConnector closes its socket before it makes
 another

---
 src/CUdpConnector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 0af6deb..8b4699a 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -50,6 +50,11 @@ namespace lce
 
 	bool CUdpConnector::connect(const std::string &sSvrIp, const unsigned short wSvrPort, const std::string &sLocalIp, const unsigned short wLocalIp)
 	{
+		if (m_iFd != INVALID_SOCKET)
+		{
+			this->close();
+		}
+
 		m_sSvrIp = sSvrIp;
 		m_wSvrPort = wSvrPort;
 
-- 
2.43.0


From e9a0291de72651758ca0f835d183bc07b68b3c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 86/91] fix: CUdpConnector does not crash on a host without a
 private address

---
 src/CUdpConnector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 8b4699a..3f73fa5 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -72,7 +72,8 @@ namespace lce
 		sockClentAddr.sin_family = AF_INET;
 		if (sLocalIp.empty())
 		{
-			sockClentAddr.sin_addr.s_addr = inet_addr(getLocalIp());
+			const char *pLocalIp = getLocalIp();
+			sockClentAddr.sin_addr.s_addr = pLocalIp != NULL ? inet_addr(pLocalIp) : htonl(INADDR_ANY);
 		}
 		else
 		{
-- 
2.43.0


From 2f22edb52ae06cbe0827fd6cc68e2d3ffadf17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 87/91] fix: an LRU cache of capacity 0 holds nothing

---
 include/CLruCache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 22089ca..edd502f 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -151,6 +151,9 @@ namespace lce
     public:
         bool set(const TKey &tKey, const TValue &tValue, uint32_t dwExpireTime = 0)
         {
+            if (m_dwMaxSize == 0)
+                return false;
+
             CAutoLock lock(m_oMutex);
             CacheIter it = m_mapCache.find(tKey);
 
-- 
2.43.0


From 95bddfbfb9cd190d87d38e311e4521fb766e7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 88/91] fix: a divided LRU cache of less than 32 keys keeps to
 its capacity

---
 include/CLruCache.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index edd502f..c097786 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -259,13 +259,15 @@ namespace lce
         CLruCacheV2(size_t dwMaxSize = 10000)
         {
             m_dwMaxSize = dwMaxSize;
-            size_t dwCacheSize = dwMaxSize / CACHE_LOCK_NUM;
+            // every part has room for a key
+            m_dwCaches = dwMaxSize < CACHE_LOCK_NUM ? (dwMaxSize == 0 ? 1 : dwMaxSize) : CACHE_LOCK_NUM;
+            size_t dwCacheSize = dwMaxSize / m_dwCaches;
 
-            for (int i = 0; i < CACHE_LOCK_NUM; i++)
+            for (size_t i = 0; i < m_dwCaches; i++)
             {
-                if (i == (CACHE_LOCK_NUM - 1))
+                if (i == (m_dwCaches - 1))
                 {
-                    m_pLruCaches[i] = new CLruCache<TKey, TValue>(dwCacheSize + (dwMaxSize % CACHE_LOCK_NUM));
+                    m_pLruCaches[i] = new CLruCache<TKey, TValue>(dwCacheSize + (dwMaxSize % m_dwCaches));
                 }
                 else
                 {
@@ -276,7 +278,7 @@ namespace lce
 
         ~CLruCacheV2()
         {
-            for (int i = 0; i < CACHE_LOCK_NUM; ++i)
+            for (size_t i = 0; i < m_dwCaches; ++i)
             {
                 delete m_pLruCaches[i];
                 m_pLruCaches[i] = NULL;
@@ -287,7 +289,7 @@ namespace lce
         {
 
             size_t dwSize = 0;
-            for (int i = 0; i < CACHE_LOCK_NUM; ++i)
+            for (size_t i = 0; i < m_dwCaches; ++i)
             {
                 dwSize += m_pLruCaches[i]->getSize();
             }
@@ -298,19 +300,19 @@ namespace lce
 
         bool set(const TKey &tKey, const TValue &tValue, uint32_t dwExpireTime = 0)
         {
-            size_t index = Hash(tKey) % CACHE_LOCK_NUM;
+            size_t index = Hash(tKey) % m_dwCaches;
             return m_pLruCaches[index]->set(tKey, tValue, dwExpireTime);
         }
 
         bool get(const TKey &tKey, TValue &tValue)
         {
-            size_t index = Hash(tKey) % CACHE_LOCK_NUM;
+            size_t index = Hash(tKey) % m_dwCaches;
             return m_pLruCaches[index]->get(tKey, tValue);
         }
 
         void clear()
         {
-            for (size_t i = 0; i < CACHE_LOCK_NUM; ++i)
+            for (size_t i = 0; i < m_dwCaches; ++i)
             {
                 m_pLruCaches[i]->clear();
             }
@@ -318,12 +320,13 @@ namespace lce
 
         bool del(const TKey &tKey)
         {
-            size_t index = Hash(tKey) % CACHE_LOCK_NUM;
+            size_t index = Hash(tKey) % m_dwCaches;
             return m_pLruCaches[index]->del(tKey);
         }
 
     private:
         CLruCache<TKey, TValue> *m_pLruCaches[CACHE_LOCK_NUM];
+        size_t m_dwCaches;
         size_t m_dwMaxSize;
     };
 
-- 
2.43.0


From 571d0a506216fd2ee64cc26bca7846640240d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:25 +0000
Subject: [PATCH 89/91] fix: Condition::wait with a timeout waits for that long

---
 include/CLock.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/CLock.h b/include/CLock.h
index 4e13eb2..f897c53 100644
--- a/include/CLock.h
+++ b/include/CLock.h
@@ -110,7 +110,15 @@ namespace lce
 		Condition &operator=(const Condition &);
 
 	public:
-		Condition() { ::pthread_cond_init(&m_sect, NULL); }
+		Condition()
+		{
+			// the deadlines of wait(m, ms) are taken from this clock
+			pthread_condattr_t attr;
+			::pthread_condattr_init(&attr);
+			::pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+			::pthread_cond_init(&m_sect, &attr);
+			::pthread_condattr_destroy(&attr);
+		}
 		~Condition() { ::pthread_cond_destroy(&m_sect); }
 		bool signal() { return 0 == ::pthread_cond_signal(&m_sect); }
 		bool broadcast() { return 0 == ::pthread_cond_broadcast(&m_sect); }
@@ -121,6 +129,11 @@ namespace lce
 			clock_gettime(CLOCK_MONOTONIC, &tv);
 			tv.tv_sec += iWaitTime / 1000;
 			tv.tv_nsec += (iWaitTime % 1000) * 1000000;
+			if (tv.tv_nsec >= 1000000000)
+			{
+				tv.tv_sec += 1;
+				tv.tv_nsec -= 1000000000;
+			}
 
 			return 0 == ::pthread_cond_timedwait(&m_sect, &m.m_lock, &tv);
 		}
-- 
2.43.0


From 85cd6693c4fbbb9659bdac13f000cef347d98370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:35 +0000
Subject: [PATCH 90/91] fix: CThread does not cancel an ended thread it has
 detached, and is not seen as stopped while it restarts

---
 src/CThread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CThread.cpp b/src/CThread.cpp
index 564c572..9b8ccea 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -12,8 +12,8 @@ namespace lce
 
     CThread::~CThread()
     {
-        detach();
         stop();
+        detach();
     }
 
     int CThread::start()
@@ -25,13 +25,14 @@ namespace lce
         sigaddset(&signal_mask, SIGPIPE);
         pthread_sigmask(SIG_BLOCK, &signal_mask, NULL);
 
+        int iStop = m_iStop;
+        m_iStop = 0; // the new thread may look at it at once
         if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
+            m_iStop = iStop;
             return -1;
         }
-        m_iStop = 0;
-
         return 0;
     }
 
-- 
2.43.0


From d7a48a0de09fd2b6fa6ebabd2ff685f0a49a47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:30 +0000
Subject: [PATCH 91/91] fix: CThread::stop cancels before the thread can see
 the stop, while its id is valid

---
 src/CThread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CThread.cpp b/src/CThread.cpp
index 9b8ccea..6025272 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -63,13 +63,14 @@ namespace lce
         if (m_iStop)
             return 0;
 
-        m_iStop = 1;
+        int iRet = 0;
         if (m_iId > 0)
         {
-            return pthread_cancel(m_iId);
+            iRet = pthread_cancel(m_iId); // while it cannot have seen the stop: detached, it may then end, and its id with it
         }
+        m_iStop = 1;
 
-        return 0;
+        return iRet;
     }
 
 };
-- 
2.43.0

