PROP="C25"
NEEDS="a package object that has read something and is then given another package as a string"
BREAKS="reading goes on at the old position, so the first fields of the new package are skipped"
EDITS=[("include/CPackage.h","""				throw Error("data len less than pkg head len.");
			}
			m_iPos = 0;
			m_pkgData = sData;
""","""				throw Error("data len less than pkg head len.");
			}
			if ((size_t)m_iPos > sData.size())
				m_iPos = 0;
			m_pkgData = sData;
""")]
SRCS="src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CPackage.h"
struct H { uint32_t len; };
int main() {
  lce::CPackage<H> p;
  p.write((unsigned int)11); p.write((unsigned int)12);
  std::string d(p.data(), p.size());
  lce::CPackage<H> q;
  unsigned int a = 0;
  q.setPkgData(d); q >> a;
  q.setPkgData(d); q >> a;
  if (a != 11) bad("the new package is not read from its start");
  good();
}
'''
