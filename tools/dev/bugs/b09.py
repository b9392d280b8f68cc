PROP="C09"
NEEDS="an outgoing connection is established later, and the write made in its connect callback is not taken whole at once"
BREAKS="the write event armed by that write is removed after the callback: the rest is never sent"
EDITS=[("src/CCommMgr.cpp","""        m_oCEvent.delFdEvent(iFd, CEvent::EV_WRITE);

        StClientInfo *pstClientInfo = &m_vecClients[iFd];
        StServerInfo *pstServerInfo = m_vecServers[pstClientInfo->iSrvId];

        int error;""","""        StClientInfo *pstClientInfo = &m_vecClients[iFd];
        StServerInfo *pstServerInfo = m_vecServers[pstClientInfo->iSrvId];

        int error;"""),("src/CCommMgr.cpp","""                        pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
                }
            }
        }
        else
        {
            if (pstServerInfo->pProcessor != NULL)
                pstServerInfo->pProcessor->onConnect(stSession, false, pData);""","""                        pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
                }
                m_oCEvent.delFdEvent(iFd, CEvent::EV_WRITE);
            }
        }
        else
        {
            if (pstServerInfo->pProcessor != NULL)
                pstServerInfo->pProcessor->onConnect(stSession, false, pData);""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int cut, up;
extern "C" ssize_t send(int fd, const void *b, size_t n, int f) {
  if (cut) { cut = 0; return write(fd, b, n / 2); }
  return write(fd, b, n);
}
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) {}
  void onConnect(lce::StSession &s, bool ok, void *) {
    up = 1;
    if (!ok) bad("connect");
    cut = 1;
    lce::CCommMgr::getInstance().write(s, "0123456789", 10, false);
  }
  void onClose(lce::StSession &) {}
  void onError(lce::StSession &, const char *, int e) {}
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int l = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a; memset(&a, 0, sizeof a);
  a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr("127.0.0.1");
  socklen_t al = sizeof a;
  bind(l, (sockaddr *)&a, al); listen(l, 5); getsockname(l, (sockaddr *)&a, &al);
  m.init(100);
  int s = m.createClient();
  m.setProcessor(s, &app, lce::PKG_RAW);
  if (m.connect(s, "127.0.0.1", ntohs(a.sin_port)) < 0) bad("connect fails");
  pthread_t t; pthread_create(&t, 0, loop, 0);
  int c = accept(l, 0, 0);
  if (take(c, 10, 3000) != "0123456789") bad("the rest of a write never arrives");
  good();
}
'''
