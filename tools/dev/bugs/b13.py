PROP="C13"
NEEDS="a worker thread that takes the request before the reactor goes on after handing it over"
BREAKS="the request is filled in after it was handed to the workers: a worker can see it empty or half written"
EDITS=[("include/CRawWorkerPool.h","""        pstRequest->getReader().assign(pszData, iSize);
        if (dispatch(0, pstRequest) < 0)
""","""        pstRequest->getReader().reserve(iSize);
        int iRet = dispatch(0, pstRequest);
        pstRequest->getReader().assign(pszData, iSize);
        if (iRet < 0)
""")]
SRCS="src/CCommMgr.cpp src/CEvent.cpp src/Utils.cpp src/CThread.cpp src/CTask.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CRawWorkerPool.h"
static volatile int wrong;
struct W : lce::CRawWorker {
  void onRequest(lce::CRawRequest &q, lce::CRawResponse &r) {
    std::string a(q.getReader());
    if (a.empty()) wrong = 1;
    r.getWriter().assign("ok", 2);
  }
};
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int port = freeport();
  m.init(100);
  int s = m.createSrv(lce::SRV_TCP, "127.0.0.1", port, 1000000, 4000000);
  lce::CRawWorkerPool<W> *p = new lce::CRawWorkerPool<W>;
  p->init(6, 1000); p->run();
  m.setProcessor(s, p, lce::PKG_RAW);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  ms(100);
  int c = dial(port);
  for (int i = 0; i < 40000 && !wrong; i++) { put(c, "0123456789012345678901234567890123456789"); if (take(c, 2, 3000).size() != 2) bad("no answer"); }
  if (wrong) bad("a worker sees a request without its data");
  good();
}
'''
