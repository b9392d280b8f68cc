PROP="C08"
NEEDS="two threads send a message at the same moment"
BREAKS="the message queue is changed outside the lock: messages get lost or the queue is corrupted"
EDITS=[("src/CEvent.cpp","""        ::pthread_mutex_lock(&m_lock);

        m_queMsgEvents.push(stMsgEvent);
""","""        m_queMsgEvents.push(stMsgEvent);

        ::pthread_mutex_lock(&m_lock);
""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile long got;
struct App : lce::CProcessor {
  void onMessage(int, void *) { got++; }
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
enum { N = 60000, T = 6 };
static void *snd(void *) {
  for (int i = 0; i < N; i++) if (lce::CCommMgr::getInstance().sendMessage(1, &app, 0) != 0) bad("sending fails");
  return 0;
}
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  m.init(100);
  pthread_t t, s[T]; pthread_create(&t, 0, loop, 0);
  for (int i = 0; i < T; i++) pthread_create(&s[i], 0, snd, 0);
  for (int i = 0; i < T; i++) pthread_join(s[i], 0);
  for (int i = 0; i < 500 && got < (long)N * T; i++) ms(20);
  if (got != (long)N * T) bad("messages are lost");
  good();
}
'''
