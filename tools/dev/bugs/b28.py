PROP="C28"
NEEDS="an outgoing connection of a worker that is pending when connect returns, and a callback that writes more than the socket takes at once"
BREAKS="what remains of the first write is never sent: the wish to write, registered inside the callback, is taken back after it"
EDITS=[("src/CNetWorker.cpp","""		m_oEvent.delFdEvent(iFd, CEvent::EV_WRITE);

		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;

		int error;
""","""		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;

		int error;
"""),("src/CNetWorker.cpp","""			onConnect(stSession, true, pData);

			if (!isClose(stSession))
			{

""","""			onConnect(stSession, true, pData);

			if (!isClose(stSession))
			{
				m_oEvent.delFdEvent(iFd, CEvent::EV_WRITE);

""")]
SRCS="src/CNetWorker.cpp src/CEvent.cpp src/Utils.cpp src/CThread.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CNetWorkerMgr.h"
#include <sys/resource.h>
static int back;
static const int N = 6000000;
struct W : lce::CNetWorker {
  int id; std::string big;
  void onRead(lce::StSession &s, const char *p, const int n) {
    if (id) return;
    id = createClient(lce::PKG_RAW, 10240, 102400, 102400, 20000000);
    big.assign(N, 'x');
    connect(id, "127.0.0.1", back, this);
  }
  W() : id(0) {}
  void onConnect(lce::StSession &s, bool ok, void *d) { if (d == this && ok) write(s, big.data(), N); }
  void onClose(lce::StSession &s) {}
  void onError(lce::StSession &s, const char *m, int e) {}
  void onMessage(int t, void *d) {}
  void onTimer(int t, void *d) {}
};
static lce::CNetWorkerMgr<W> *m;
static void *loop(void *) { m->start(); return 0; }
int main() {
  m = new lce::CNetWorkerMgr<W>;
  int port = freeport(); back = freeport();
  int l = socket(AF_INET, SOCK_STREAM, 0), on = 1;
  setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
  struct sockaddr_in a; memset(&a, 0, sizeof a);
  a.sin_family = AF_INET; a.sin_port = htons(back); a.sin_addr.s_addr = inet_addr("127.0.0.1");
  int rb = 4096; setsockopt(l, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb);
  if (bind(l, (struct sockaddr *)&a, sizeof a) || listen(l, 5)) bad("listener");
  m->init(1, 1000);
  if (m->createSrv("127.0.0.1", port, lce::PKG_RAW) < 0) bad("server");
  pthread_t t; pthread_create(&t, 0, loop, 0);
  ms(200);
  int c = dial(port);
  put(c, "x");
  int p = accept(l, 0, 0);
  ms(300);
  std::string g = take(p, N, 5000);
  if ((int)g.size() != N) bad("what was written in onConnect does not arrive");
  good();
}
'''
