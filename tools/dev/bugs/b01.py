PROP="C01"
NEEDS="more than 64 complete packages in one receive, and no further input"
BREAKS="a fairness limit leaves the packages after the 64th of a receive in the buffer until more input arrives"
EDITS=[("src/CCommMgr.cpp","""            while ((iWholePkgFlag = pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
            {
                if (pstServerInfo->pProcessor != NULL)""","""            for (int iDone = 0; iDone < 64 && (iWholePkgFlag = pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0; ++iDone)
            {
                if (pstServerInfo->pProcessor != NULL)""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int got;
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) { got++; }
  void onConnect(lce::StSession &, bool, void *) {}
  void onClose(lce::StSession &) {}
  void onError(lce::StSession &, const char *, int) {}
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int port = freeport();
  m.init(100);
  int s = m.createSrv(lce::SRV_TCP, "127.0.0.1", port);
  if (s < 0) bad("server");
  m.setProcessor(s, &app, lce::PKG_H2ST3);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  int c = dial(port);
  std::string d;
  for (int i = 0; i < 500; i++) d += std::string("\x02\x00\x05x\x03", 5);
  put(c, d);
  for (int i = 0; i < 100 && got < 500; i++) ms(20);
  if (got != 500) bad("packages that have arrived are not delivered");
  good();
}
'''
