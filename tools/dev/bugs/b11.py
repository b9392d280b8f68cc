PROP="C11"
NEEDS="two connections handed to the same worker before it handles the first notification"
BREAKS="a worker takes only one new connection per notification, although notifications are merged: the others wait"
EDITS=[("src/CNetWorker.cpp","		while (!m_queConn.empty())\n","		if (!m_queConn.empty())\n"),
("src/CNetWorker.cpp","""				if (isClose(stSession))
					continue;
""","""				if (isClose(stSession))
					return;
""")]
SRCS="src/CNetWorker.cpp src/CEvent.cpp src/Utils.cpp src/CThread.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CNetWorkerMgr.h"
static volatile int got;
struct W : lce::CNetWorker {
  void onRead(lce::StSession &s, const char *p, const int n) { if (*p == 'z') ms(500); write(s, p, n); }
  void onConnect(lce::StSession &s, bool ok, void *d) { }
  void onClose(lce::StSession &s) {}
  void onError(lce::StSession &s, const char *m, int e) {}
  void onMessage(int t, void *d) {}
  void onTimer(int t, void *d) {}
};
static lce::CNetWorkerMgr<W> *m;
static void *loop(void *) { m->start(); return 0; }
int main() {
  m = new lce::CNetWorkerMgr<W>;
  int port = freeport();
  m->init(1, 100);
  if (m->createSrv("127.0.0.1", port, lce::PKG_RAW) < 0) bad("server");
  pthread_t t; pthread_create(&t, 0, loop, 0);
  ms(200);
  int a = dial(port);
  put(a, "z"); // the worker is busy for a while
  ms(200);
  int b = dial(port), c = dial(port), d = dial(port);
  put(b, "b"); put(c, "c"); put(d, "d");
  if (take(a, 1, 3000) != "z") bad("first");
  if (take(b, 1, 1500) != "b" || take(c, 1, 1500) != "c" || take(d, 1, 1500) != "d") bad("a connection is not served");
  good();
}
'''
