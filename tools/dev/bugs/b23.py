PROP="C23"
NEEDS="a list of servers in which an entry other than the last has no port"
BREAKS="the entries after it are dropped"
EDITS=[("src/CConfig.cpp","""				if (bEnd)
				{
					break;
				}
""","""				if (bEnd || ID == std::string::npos)
				{
					break;
				}
""")]
SRCS="src/CConfig.cpp src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CConfig.h"
int main() {
  FILE *f = fopen("c.ini", "w");
  fputs("[a]\ns=1.1.1.1:10|nothing|2.2.2.2:20\n", f); fclose(f);
  lce::CConfig c;
  if (!c.loadConfig("c.ini")) bad("load");
  std::vector<std::pair<std::string, unsigned short> > v;
  c.getIPAndPortList("a", "s", v, "9.9.9.9", 9);
  if (v.size() != 2 || v[1].first != "2.2.2.2" || v[1].second != 20) bad("list");
  good();
}
'''
