PROP="C33"
NEEDS="two threads that ask for the instance for the first time at the same moment"
BREAKS="both construct one: the object is built twice and the threads use different ones"
EDITS=[("include/CSingleton.h","""				pthread_mutex_lock(&m_mutex);
				if (m_pInstance == NULL)
				{
					m_pInstance = new T;
				}
""","""				pthread_mutex_lock(&m_mutex);
				m_pInstance = new T;
""")]
DEMO=r'''
#include "demo.h"
#include "CSingleton.h"
static int built;
struct T { T() { __sync_fetch_and_add(&built, 1); ms(300); } };
static void *w(void *p) { *(T **)p = &lce::CSingleton<T>::getInstance(); return 0; }
int main() {
  pthread_t t[4]; T *r[4];
  for (int i = 0; i < 4; i++) pthread_create(&t[i], 0, w, &r[i]);
  for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
  if (built != 1) bad("built more than once");
  for (int i = 1; i < 4; i++) if (r[i] != r[0]) bad("different instances");
  good();
}
'''
