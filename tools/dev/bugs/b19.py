PROP="C19"
NEEDS="lines written all the time, from before each look of the thread, in a log whose interval is some seconds"
BREAKS="the interval only counts while nothing waits, so lines that are already waiting stay in memory far longer than the interval, and are lost with a crash"
EDITS=[("src/CAsyncLog.cpp","""			iMillSecs += 100;
""","""			if (bEmpty)
				iMillSecs += 100;
""")]
SRCS="src/CAsyncLog.cpp src/Utils.cpp src/CThread.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CAsyncLog.h"
#include <fstream>
#include <sstream>
int main() {
  lce::CAsyncLog *log = new lce::CAsyncLog;
  log->init("l", 1);
  for (int i = 0; i < 40; i++) { log->writeRaw("line"); ms(100); }
  FILE *p = popen("cat l_* 2>/dev/null | wc -l", "r");
  int n = 0;
  if (fscanf(p, "%d", &n) != 1) bad("cat");
  if (n < 10) bad("no line reached the file in four seconds");
  good();
}
'''
