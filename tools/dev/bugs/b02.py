PROP="C02"
NEEDS="the system refuses the very first byte of a write (socket buffer exactly full) while nothing is buffered, and the application writes nothing afterwards"
BREAKS="the data is buffered but the write event is not armed: it is never sent"
EDITS=[("src/CCommMgr.cpp","""                    if (!pstClientInfo->pSocketSendBuf->addData(pszData, iSize))
                    {
                        snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
                        return -1;
                    }

                    if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                    {
                        snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
                        return -1;
                    }
                }
                else
                {
                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
                    return -1;
                }
            }
        }
        else if (""","""                    if (!pstClientInfo->pSocketSendBuf->addData(pszData, iSize))
                    {
                        snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
                        return -1;
                    }
                }
                else
                {
                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
                    return -1;
                }
            }
        }
        else if (""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int refuse; // how many sends are refused
extern "C" ssize_t send(int fd, const void *b, size_t n, int f) {
  if (refuse > 0) { refuse--; errno = EAGAIN; return -1; }
  return write(fd, b, n);
}
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) {
    refuse = 1;
    lce::CCommMgr::getInstance().write(s, "answer", 6, false);
  }
  void onConnect(lce::StSession &, bool, void *) {}
  void onClose(lce::StSession &) {}
  void onError(lce::StSession &, const char *, int) {}
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int port = freeport();
  m.init(100);
  int s = m.createSrv(lce::SRV_TCP, "127.0.0.1", port);
  if (s < 0) bad("server");
  m.setProcessor(s, &app, lce::PKG_RAW);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  int c = dial(port);
  put(c, "q");
  if (take(c, 6, 3000) != "answer") bad("an accepted write never arrives");
  good();
}
'''
