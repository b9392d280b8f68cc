PROP="C07"
NEEDS="two timers with the same deadline, and the one added later is deleted"
BREAKS="deleting a timer looks only at the first timer with that deadline: the deleted timer fires"
EDITS=[("src/CEvent.cpp","""        for (; find != m_setStTimeEvents.end(); ++find)
        {

            if (find->iTimerId == iTimerId)
            {
                m_setStTimeEvents.erase(find);
                break;
            }
        }
""","""        if (find != m_setStTimeEvents.end() && find->iTimerId == iTimerId)
        {
            m_setStTimeEvents.erase(find);
        }
""")]
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CCommMgr.h"
static volatile int one, two, three;
struct App : lce::CProcessor {
  void onTimer(int id, void *) {
    lce::CCommMgr &m = lce::CCommMgr::getInstance();
    if (id == 1) one++;
    if (id >= 100) two++;
    if (id == 3) three++;
  }
} app;
static void *loop(void *) { lce::CCommMgr::getInstance().start(); return 0; }
int main() {
  lce::CCommMgr &m = lce::CCommMgr::getInstance();
  m.init(100);
  for (int i = 0; i < 200; i++) m.addTimer(100 + i, 300, &app);
  for (int i = 199; i >= 0; i--) m.delTimer(100 + i);
  m.addTimer(3, 700, &app);
  pthread_t t; pthread_create(&t, 0, loop, 0);
  for (int i = 0; i < 200 && !three; i++) ms(20);
  if (!three) bad("a timer does not fire");
  if (two) bad("a deleted timer fires");
  good();
}
'''
