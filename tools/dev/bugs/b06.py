PROP="C06"
NEEDS="a malformed package that arrives together with a well-formed one before it, and nothing after"
BREAKS="the malformed package is only noticed if it is the first of a receive: the connection stays open and its error is not reported"
EDITS=[("src/CCommMgr.cpp","""                if (pstServerInfo->pProcessor != NULL)
                    pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);

                if (isClose(stSession))
                    break;

                pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
            }
""","""                if (pstServerInfo->pProcessor != NULL)
                    pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);

                if (isClose(stSession))
                    break;

                CSocketBuf *pBuf = pstClientInfo->pSocketRecvBuf;
                pBuf->removeData(iPkgLen);
                if (pBuf->getSize() < iPkgLen)
                    break; // not another one of that kind
            }
""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int got, err;
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) { got++; }
  void onError(lce::StSession &, const char *, int e) { err = e; }
  void onConnect(lce::StSession &, bool, void *) {}
  void onClose(lce::StSession &) {}
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int port = freeport();
  m.init(100);
  int s = m.createSrv(lce::SRV_TCP, "127.0.0.1", port);
  if (s < 0) bad("server");
  m.setProcessor(s, &app, lce::PKG_H2ST3);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  int c = dial(port);
  put(c, std::string("\x02\x00\x09hello\x03" "junk", 13));
  bool eof;
  take(c, 1, 1500, &eof);
  if (got != 1) bad("the package before is not delivered");
  if (!eof) bad("the connection of a malformed package stays open");
  good();
}
'''
