PROP="C14"
NEEDS="several producers and consumers waiting on one full or empty queue at the same time"
BREAKS="a push wakes only one waiter, which can be another producer: the consumer sleeps on"
EDITS=[("include/CBlockQueue.h","""            m_dwSize++;
            pthread_mutex_unlock(m_mutex);
            pthread_cond_broadcast(m_cond);
""","""            m_dwSize++;
            pthread_mutex_unlock(m_mutex);
            pthread_cond_signal(m_cond);
"""),("include/CBlockQueue.h","""            m_dwFront = (m_dwFront + 1) % m_dwMaxSize;
            item = m_pData[m_dwFront];
            m_dwSize--;
            pthread_mutex_unlock(m_mutex);
            pthread_cond_broadcast(m_cond);
            return true;
        }

        bool pop(T &item, int timeout)""","""            m_dwFront = (m_dwFront + 1) % m_dwMaxSize;
            item = m_pData[m_dwFront];
            m_dwSize--;
            pthread_mutex_unlock(m_mutex);
            pthread_cond_signal(m_cond);
            return true;
        }

        bool pop(T &item, int timeout)""")]
DEMO=r'''
#include "demo.h"
#include <iostream>
#include "CBlockQueue.h"
static lce::CBlockQueue<int> q(1);
static volatile long in, out;
enum { N = 100000, T = 6 };
static void *prod(void *) { for (int i = 0; i < N; i++) { q.push(i); __sync_fetch_and_add(&in, 1); } return 0; }
static void *cons(void *) { for (int i = 0; i < N; i++) { int x; q.pop(x); __sync_fetch_and_add(&out, 1); } return 0; }
int main() {
  pthread_t t;
  for (int i = 0; i < T; i++) pthread_create(&t, 0, prod, 0), pthread_create(&t, 0, cons, 0);
  long last = -1;
  int same = 0;
  while (out < (long)N * T) {
    ms(100);
    same = out == last ? same + 1 : 0;
    last = out;
    if (same > 50) bad("everybody sleeps");
  }
  good();
}
'''
SRCS=" "
