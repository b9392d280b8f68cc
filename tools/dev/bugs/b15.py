PROP="C15"
NEEDS="the consumer looks at the ring between the producer's publication of the index and its writing of the slot"
BREAKS="the index is published before the item is written: the consumer takes an item that is not there yet"
EDITS=[("include/CCircleQueue.h","""			pData[m_dwRear].e = e;
			m_dwRear = (m_dwRear + 1) % m_dwSize;
""","""			uint32_t dwSlot = m_dwRear;
			m_dwRear = (dwSlot + 1) % m_dwSize;
			pData[dwSlot].e = e;
""")]
DEMO=r'''
#include "demo.h"
#include "CCircleQueue.h"
struct Big {
  long v[64];
  Big() { v[0] = v[63] = -1; }
  explicit Big(long n) { for (int i = 0; i < 64; i++) v[i] = n; }
  Big &operator=(const Big &o) { for (int i = 0; i < 64; i++) ((volatile long *)v)[i] = o.v[i]; return *this; }
};
static lce::CCircleQueue<Big> q;
enum { N = 2000000 };
static void *prod(void *) { for (long i = 0; i < N; i++) { Big b(i); while (!q.enque(b)); } return 0; }
int main() {
  q.init(4);
  pthread_t t; pthread_create(&t, 0, prod, 0);
  for (long i = 0; i < N; i++) {
    Big b;
    while (!q.deque(b));
    for (int k = 0; k < 64; k++) if (b.v[k] != i) bad("an item is torn or out of order");
  }
  good();
}
'''
SRCS=" "
