PROP="C10"
NEEDS="a datagram with an incomplete package followed by another datagram"
BREAKS="the incomplete datagram stays in the buffer and is joined with the next one"
EDITS=[("src/CCommMgr.cpp","            if (-2 == iWholePkgFlag || -1 == iWholePkgFlag)","            if (-2 == iWholePkgFlag)")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int got;
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) {
    if (n != 6 || memcmp(p, "\x02\x00\x06""ok\x03", 6)) bad("something else than a datagram is delivered");
    got++;
  }
  void onError(lce::StSession &, const char *, int e) {}
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  int port = freeport(SOCK_DGRAM);
  m.init(100);
  int s = m.createSrv(lce::SRV_UDP, "127.0.0.1", port);
  if (s < 0) bad("server");
  m.setProcessor(s, &app, lce::PKG_H2ST3);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  int c = socket(AF_INET, SOCK_DGRAM, 0);
  sockaddr_in a; memset(&a, 0, sizeof a);
  a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr("127.0.0.1");
  connect(c, (sockaddr *)&a, sizeof a);
  send(c, "\x02\x00\x0cxx", 5, 0); // 12 bytes announced
  ms(200);
  send(c, "\x02\x00\x06""ok\x03", 6, 0);
  for (int i = 0; i < 100 && !got; i++) ms(20);
  if (got != 1) bad("a datagram is not delivered");
  good();
}
'''
