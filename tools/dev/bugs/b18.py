PROP="C18"
NEEDS="one thread clears the cache while another reads or sets"
BREAKS="clear drops the map before it takes the lock"
EDITS=[("include/CLruCache.h","""        void clear()
        {
            CAutoLock lock(m_oMutex);
            m_mapCache.clear();
            clearList();
        }

        bool del(const TKey &tKey)
        {
            CAutoLock lock(m_oMutex);
            CacheIter it = m_mapCache.find(tKey);
            if (it != m_mapCache.end())
            {
                removeFromList(it->second, true);""","""        void clear()
        {
            m_mapCache.clear();
            CAutoLock lock(m_oMutex);
            clearList();
        }

        bool del(const TKey &tKey)
        {
            CAutoLock lock(m_oMutex);
            CacheIter it = m_mapCache.find(tKey);
            if (it != m_mapCache.end())
            {
                removeFromList(it->second, true);""")]
FLAGS="-fsanitize=thread"
DEMO=r'''
#include "demo.h"
#include "CLruCache.h"
static lce::CLruCache<int, int> c(200);
static void *w(void *) { for (int i = 0; i < 20000; i++) { int v; c.set(i % 50, i); c.get(i % 37, v); } return 0; }
static void *x(void *) { for (int i = 0; i < 2000; i++) c.clear(); return 0; }
int main() {
  pthread_t a, b;
  pthread_create(&a, 0, w, 0); pthread_create(&b, 0, x, 0);
  pthread_join(a, 0); pthread_join(b, 0);
  printf("ok\n"); // a data race makes the exit status 66
  return 0;
}
'''
SRCS="src/Utils.cpp"
