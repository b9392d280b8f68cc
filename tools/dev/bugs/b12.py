PROP="C12"
NEEDS="two tasks dispatched before an idle thread wakes up, the first of which runs long"
BREAKS="only the first task of an empty queue wakes a thread: the second waits although threads are free"
EDITS=[("src/CTask.cpp","""        m_queTaskQueue.push(stTaskInfo);

        pthread_mutex_unlock(&m_lock);
        pthread_cond_signal(&m_cond);""","""        bool bWake = m_queTaskQueue.empty();
        m_queTaskQueue.push(stTaskInfo);

        pthread_mutex_unlock(&m_lock);
        if (bWake)
            pthread_cond_signal(&m_cond);""")]
DEMO=r'''
#include "demo.h"
#include "CTask.h"
static volatile int done, hold = 1, began;
struct Pool : lce::CTask {
  void onWork(int type, void *, int) {
    __sync_fetch_and_add(&began, 1);
    while (hold) ms(5);
    __sync_fetch_and_add(&done, 1);
  }
};
int main() {
  Pool &p = *new Pool;
  p.init(4, 100);
  p.run();
  ms(200); // all wait
  for (int i = 0; i < 4; i++) p.dispatch(1, 0);
  for (int i = 0; i < 100 && began < 4; i++) ms(20);
  if (began < 4) bad("tasks wait while threads are free");
  good();
}
'''
SRCS="src/CTask.cpp src/CThread.cpp"
