PROP="C03"
NEEDS="the peer resets the connection while data is waiting to be sent, and the write event is handled before a read event"
BREAKS="the failure is reported from the write event without closing, and the following read event reports the end of the connection again"
EDITS=[("src/CCommMgr.cpp","""                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
                    close(iFd);
                    if (pstServerInfo->pProcessor != NULL)
                        pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_SOCKET);
                    return -1;""","""                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
                    m_oCEvent.delFdEvent(iFd, CEvent::EV_WRITE);
                    if (pstServerInfo->pProcessor != NULL)
                        pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_SOCKET);
                    return -1;""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int mode, nends, conn; // mode 1: nothing is taken, 2: the connection is gone
extern "C" ssize_t send(int fd, const void *b, size_t n, int f) {
  if (mode == 1) { errno = EAGAIN; return -1; }
  if (mode == 2) { errno = EPIPE; return -1; }
  return write(fd, b, n);
}
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) {
    mode = 1;
    lce::CCommMgr::getInstance().write(s, "answer", 6, false);
    mode = 2;
  }
  void onConnect(lce::StSession &, bool, void *) { conn++; }
  void onClose(lce::StSession &) { nends++; }
  void onError(lce::StSession &, const char *, int e) { nends++; }
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int port = freeport();
  m.init(100);
  int s = m.createSrv(lce::SRV_TCP, "127.0.0.1", port);
  if (s < 0) bad("server");
  m.setProcessor(s, &app, lce::PKG_RAW);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  int c = dial(port);
  put(c, "q");
  for (int i = 0; i < 150 && !nends; i++) ms(20);
  close(c);
  ms(500);
  if (nends != 1) { fprintf(stderr, "%d\n", nends); bad("the end of the connection is not reported exactly once"); }
  good();
}
'''
