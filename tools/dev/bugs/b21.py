PROP="C21"
NEEDS="a reader used for a second request with no cookies, after one that had cookies"
BREAKS="the cookies of the previous request are reported for the next one"
EDITS=[("src/CHttpReader.cpp","""		MAP_HEAD_INFO::const_iterator it = m_mapHeadInfo.find("cookie");
		if (it != m_mapHeadInfo.end())
		{
			m_sCookies = it->second;
		}

		if (m_sCookies.empty())
			return;
""","""		MAP_HEAD_INFO::const_iterator it = m_mapHeadInfo.find("cookie");
		if (it != m_mapHeadInfo.end())
		{
			m_sCookies = it->second;
		}

		if (m_sCookies.size() < 4)
			return;
""")]
SRCS="src/CHttpReader.cpp src/Utils.cpp"
NEEDS="a request whose only cookie has a name and value of one character each"
BREAKS="the cookie is not reported"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CHttpReader.h"
int main() {
  lce::CHttpReader r;
  std::string q = "GET /a HTTP/1.1\r\nCookie: a=b\r\n\r\n", v;
  if (!r.setData(q.data(), q.size())) bad("request");
  r.getCookie("a", v, std::string("none"));
  if (v != "b") bad("cookie");
  good();
}
'''
