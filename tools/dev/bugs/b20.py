PROP="C20"
NEEDS="a log that is open when the day changes"
BREAKS="the file of the old day stays open and takes the lines of the new day"
EDITS=[("src/CAsyncLog.cpp","""			m_sCurDate = getDate();
			if (m_ofsOutFile.is_open())
			{
				m_ofsOutFile.close();
			}
		}
""","""			m_sCurDate = getDate();
			if (m_ofsOutFile.fail())
			{
				m_ofsOutFile.close();
			}
		}
""")]
SRCS="src/CAsyncLog.cpp src/Utils.cpp src/CThread.cpp"
DEMO=r'''
#include "demo.h"
#include <time.h>
static volatile long shift;
extern "C" time_t time(time_t *t) { timespec s; clock_gettime(CLOCK_REALTIME, &s); time_t r = s.tv_sec + shift; if (t) *t = r; return r; }
#include "lce.h"
#include "CAsyncLog.h"
int main() {
  lce::CAsyncLog *log = new lce::CAsyncLog;
  log->init("l", 100);
  log->writeRaw("first"); log->flush();
  shift = 86400;
  log->writeRaw("second"); log->flush();
  FILE *p = popen("ls l_* | wc -l; grep -L first l_* | wc -l", "r");
  int n = 0, m = 0;
  if (fscanf(p, "%d %d", &n, &m) != 2) bad("ls");
  if (n != 2 || m != 1) bad("the line of the new day is not in its own file");
  good();
}
'''
