PROP="C05"
NEEDS="outgoing connections that end while clients are connected"
BREAKS="the end of an outgoing connection is counted as the end of a client: more clients than the limit are accepted"
EDITS=[("src/CCommMgr.cpp","""            if (iType == SRV_TCP)
                m_dwClientNum--;
""","""            if (m_dwClientNum > 0)
                m_dwClientNum--;
""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
#include <sys/mman.h>
struct Sh { volatile int conn, outs, full; };
static Sh *sh;
static int cli, peerport;
struct App : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) {
    for (int i = 0; i < 6; i++)
      lce::CCommMgr::getInstance().connect(cli, "127.0.0.1", peerport);
  }
  void onConnect(lce::StSession &, bool, void *) { sh->conn++; }
  void onClose(lce::StSession &) {}
  void onError(lce::StSession &, const char *, int e) { if (e == lce::ERR_MAX_CLIENT) sh->full++; }
} app;
struct Out : lce::CProcessor {
  void onRead(lce::StSession &s, const char *p, const int n) {}
  void onConnect(lce::StSession &s, bool, void *) { lce::CCommMgr::getInstance().close(s); sh->outs++; }
  void onClose(lce::StSession &) {}
  void onError(lce::StSession &, const char *, int e) {}
} out;
int main() {
  sh = (Sh *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int port = freeport();
  peerport = freeport();
  pid_t server = fork();
  if (server == 0) {
    alarm(60);
    lce::CCommMgr &m = lce::CCommMgr::getInstance();
    m.init(100);
    int s = m.createSrv(lce::SRV_TCP, "127.0.0.1", port);
    m.setProcessor(s, &app, lce::PKG_RAW);
    cli = m.createClient();
    m.setProcessor(cli, &out, lce::PKG_RAW);
    m.start();
    _exit(0);
  }
  int l = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a; memset(&a, 0, sizeof a);
  a.sin_family = AF_INET; a.sin_port = htons(peerport); a.sin_addr.s_addr = inet_addr("127.0.0.1");
  bind(l, (sockaddr *)&a, sizeof a); listen(l, 50);
  ms(300);
  int first = dial(port);
  for (int i = 1; i < 100; i++) dial(port);
  for (int i = 0; i < 100 && sh->conn < 100; i++) ms(20);
  if (sh->conn != 100) { kill(server, 9); bad("a client below the limit is refused"); }
  put(first, "go");
  for (int i = 0; i < 100 && sh->outs < 6; i++) ms(20);
  for (int i = 0; i < 6; i++) dial(port);
  for (int i = 0; i < 100 && sh->conn + sh->full < 106; i++) ms(20);
  int n = sh->conn;
  kill(server, 9);
  if (n != 100) bad("more clients than the limit are accepted");
  good();
}
'''
