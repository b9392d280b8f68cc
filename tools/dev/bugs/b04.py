PROP="C04"
NEEDS="a connection ends while data for it is waiting, and the next connection gets its descriptor and is written to"
BREAKS="the unsent data of the old connection is sent to the new one"
EDITS=[("src/CCommMgr.cpp","""                if (pstClientInfo->pSocketSendBuf != NULL)
                {
                    delete pstClientInfo->pSocketSendBuf;
                    pstClientInfo->pSocketSendBuf = NULL;
                }
                m_oCEvent.delFdEvent""","""                if (pstClientInfo->pSocketSendBuf != NULL && !pstClientInfo->bNeedClose)
                {
                    delete pstClientInfo->pSocketSendBuf;
                    pstClientInfo->pSocketSendBuf = NULL;
                }
                m_oCEvent.delFdEvent""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int block, nends, firstfd = -1, secondfd = -1;
extern "C" ssize_t send(int fd, const void *b, size_t n, int f) {
  if (block) { errno = EAGAIN; return -1; }
  return write(fd, b, n);
}
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) {
    if (*p == '1') {
      firstfd = s.iFd;
      block = 1;
      lce::CCommMgr::getInstance().write(s, "SECRET", 6, true); // close when sent
    } else {
      secondfd = s.iFd;
      block = 0;
      lce::CCommMgr::getInstance().write(s, "public", 6, false);
    }
  }
  void onConnect(lce::StSession &, bool, void *) {}
  void onClose(lce::StSession &) { nends++; }
  void onError(lce::StSession &, const char *, int e) { nends++; }
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int port = freeport();
  m.init(100);
  int s = m.createSrv(lce::SRV_TCP, "127.0.0.1", port);
  if (s < 0) bad("server");
  m.setProcessor(s, &app, lce::PKG_RAW);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  int c = dial(port);
  put(c, "1");
  for (int i = 0; i < 150 && firstfd < 0; i++) ms(20);
  struct linger l = {1, 0};
  setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  int placeholder = dup(c);
  close(c); close(placeholder);
  for (int i = 0; i < 150 && !nends; i++) ms(20);
  // until the descriptor is used again
  for (int k = 0; k < 20; k++) {
    int d = dial(port);
    put(d, "2");
    std::string r = take(d, 6, 2000);
    if (r != "public") bad("a connection got something else than what was written to it");
  }
  good();
}
'''
