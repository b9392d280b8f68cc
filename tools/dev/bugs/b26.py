PROP="C26"
NEEDS="a readn whose bytes arrive in pieces, the last of them after a pause within the timeout, of a peer that then ends the stream"
BREAKS="reading after a timeout of less than a second gives up at once"
EDITS=[("src/CTcpConnector.cpp","""				if (0 == n)
				{
					this->close();
					return iReadSize;
				}
				iReadSize += n;
""","""				if (0 == n)
				{
					this->close();
					return 0;
				}
				iReadSize += n;
""")]
NEEDS="a peer that ends the stream in the middle of what readn waits for"
BREAKS="the bytes that had arrived are in the buffer but reported as none"
SRCS="src/CTcpConnector.cpp src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CTcpConnector.h"
int main() {
  int l = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr("127.0.0.1");
  socklen_t n = sizeof a;
  bind(l, (sockaddr *)&a, n); listen(l, 5); getsockname(l, (sockaddr *)&a, &n);
  lce::CTcpConnector c;
  if (!c.connect("127.0.0.1", ntohs(a.sin_port), 1000)) bad("connect");
  int s = accept(l, 0, 0);
  put(s, "abc"); close(s);
  char b[10];
  if (c.readn(b, 10, 1000) != 3) bad("what arrived before the end is not reported");
  good();
}
'''
