PROP="C24"
NEEDS="the sixth cell of a group of eight of three bits, rewritten from an odd to an even value"
BREAKS="the low bit of the old value stays"
EDITS=[("include/CBitMap.h","0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF","0xFFFF8FFF, 0xFFFCFFFF, 0xFFE3FFFF, 0xFF1FFFFF")]
SRCS="src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CBitMap.h"
#include <sys/ipc.h>
#include <sys/shm.h>
int main() {
  int key = 0x5a000000 | (getpid() & 0xffffff), r;
  {
    lce::CBitmap<3> b;
    if (!b.init(key, 16)) bad("init");
    b.clear();
    b.set(13, 7); b.set(13, 4);
    r = b.get(13);
    int id = shmget(key, 0, 0);
    if (id >= 0) shmctl(id, IPC_RMID, 0);
  }
  if (r != 4) bad("the cell does not have the value last written");
  good();
}
'''
