PROP="C27"
NEEDS="data waits to be sent; then a write finds room for all of it but only for a part of its own data"
BREAKS="the part of the new data that was already sent is put in the buffer again instead of the rest"
EDITS=[("src/CNetWorker.cpp","""						if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
						{
							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
							return -1;
						}

""","""						if (!pstClientInfo->pSocketSendBuf->addData(pszData, iSize - iSendSize))
						{
							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
							return -1;
						}

""")]
SRCS="src/CNetWorker.cpp src/CEvent.cpp src/Utils.cpp src/CThread.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CNetWorkerMgr.h"
// the system's socket buffer is played here: g_room bytes are free
static volatile long g_room = 1 << 30;
extern "C" ssize_t send(int fd, const void *p, size_t n, int flags) {
  if (g_room <= 0) { errno = EAGAIN; return -1; }
  if ((long)n > g_room) n = g_room;
  g_room -= n;
  return ::sendto(fd, p, n, MSG_NOSIGNAL, 0, 0);
}
static std::string a(100, 'a'), b;
struct W : lce::CNetWorker {
  void onRead(lce::StSession &s, const char *p, const int n) {
    g_room = 50;
    write(s, a.data(), a.size());
    g_room = 80; // 50 wait
    write(s, b.data(), b.size());
    g_room = 1 << 30;
  }
  void onConnect(lce::StSession &s, bool ok, void *d) { }
  void onClose(lce::StSession &s) {}
  void onError(lce::StSession &s, const char *m, int e) {}
  void onMessage(int t, void *d) {}
  void onTimer(int t, void *d) {}
};
static lce::CNetWorkerMgr<W> *m;
static void *loop(void *) { m->start(); return 0; }
int main() {
  for (int i = 0; i < 100; i++) b += (char)('b' + i % 20);
  m = new lce::CNetWorkerMgr<W>;
  int port = freeport();
  m->init(1, 100);
  if (m->createSrv("127.0.0.1", port, lce::PKG_RAW) < 0) bad("server");
  pthread_t t; pthread_create(&t, 0, loop, 0);
  ms(200);
  int c = dial(port);
  put(c, "x");
  if (take(c, 200, 1500) != a + b) bad("other bytes than those written arrive");
  good();
}
'''
