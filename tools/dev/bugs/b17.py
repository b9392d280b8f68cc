PROP="C17"
NEEDS="a key at the old end of the recency list is set again (not read) before the cache fills up"
BREAKS="setting an existing key changes its value but not its recency: it is evicted although it was just used"
EDITS=[("include/CLruCache.h","""                pstModifyNode->data = tValue;
                removeFromList(pstModifyNode);
                addToListHead(pstModifyNode);
            }
            else
            {
                SNode *pstNewNode = new SNode;
                pstNewNode->dwCTime = time(0);
                pstNewNode->dwExpireTime = dwExpireTime;
                pstNewNode->data = tValue;
                pstNewNode->key = tKey;
                addToListHead(pstNewNode);
                m_mapCache[tKey] = pstNewNode;
            }
            return true;
        }

        bool get(const TKey &tKey, TValue &tValue)
        {
            CAutoLock lock(m_oMutex);""","""                pstModifyNode->data = tValue;
                if (dwExpireTime != 0)
                {
                    removeFromList(pstModifyNode);
                    addToListHead(pstModifyNode);
                }
            }
            else
            {
                SNode *pstNewNode = new SNode;
                pstNewNode->dwCTime = time(0);
                pstNewNode->dwExpireTime = dwExpireTime;
                pstNewNode->data = tValue;
                pstNewNode->key = tKey;
                addToListHead(pstNewNode);
                m_mapCache[tKey] = pstNewNode;
            }
            return true;
        }

        bool get(const TKey &tKey, TValue &tValue)
        {
            CAutoLock lock(m_oMutex);""")]
DEMO=r'''
#include "demo.h"
#include "CLruCache.h"
int main() {
  lce::CLruCache<int, int> c(200);
  for (int i = 0; i < 200; i++) c.set(i, i);
  c.set(0, 1000); // now the most recently used one
  for (int i = 200; i < 240; i++) c.set(i, i);
  int v = 0;
  if (!c.get(0, v) || v != 1000) bad("the most recently used key was evicted");
  good();
}
'''
SRCS="src/Utils.cpp"
