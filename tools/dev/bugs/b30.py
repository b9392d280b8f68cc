PROP="C30"
NEEDS="a writer used for a second response without an ETag after one that had one"
BREAKS="the second response carries the ETag of the first, so caches keep the wrong content"
EDITS=[("src/CHttpWriter.cpp","""		m_dwLastModified = 0;
		m_sETag.clear();
""","""		m_dwLastModified = 0;
		if (m_dwExpiresTime > 0)
			m_sETag.clear();
""")]
SRCS="src/CHttpWriter.cpp src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CHttpWriter.h"
int main() {
  lce::CHttpWriter w;
  w.begin(); w.setETag("one"); w << "x"; w.end();
  w.begin(); w << "y"; w.end();
  std::string s(w.data(), w.size());
  if (s.find("one") != std::string::npos) bad("ETag of the previous response");
  good();
}
'''
