PROP="C16"
NEEDS="the last message read before the wrap ends exactly at the end of the ring"
BREAKS="a read that ends exactly at the end of the ring leaves the read position outside it"
EDITS=[("include/CBufferQueue.h","""                    if (_header->iBegin + ulMarkLen + len < _header->iBufSize)
                    {
                        new_begin = _header->iBegin + ulMarkLen + len;
                    }
                    else
                    {""","""                    if (_header->iBegin + ulMarkLen + len <= _header->iBufSize)
                    {
                        new_begin = _header->iBegin + ulMarkLen + len;
                    }
                    else
                    {""")]
DEMO=r'''
#include "demo.h"
#include <stdexcept>
#include <assert.h>
using namespace std;
#include "CBufferQueue.h"
#include <deque>
int main() {
  unsigned r = 12345;
  for (int round = 0; round < 400; round++) {
    unsigned long size = 80 + round % 97;
    vector<char> mem(size);
    lce::CBufferQueue q;
    q.create(&mem[0], size);
    deque<string> m;
    for (int i = 0; i < 400; i++) {
      r = r * 1103515245 + 12345;
      unsigned k = r >> 16;
      if (k % 2) {
        string s(1 + (k >> 1) % 20, 'a' + i % 26);
        try { q.push(s.data(), s.size()); m.push_back(s); } catch (runtime_error &) {}
      } else {
        char b[64]; unsigned long n = sizeof b;
        bool ok;
        try { ok = q.pop(b, n); } catch (runtime_error &) { bad("pop throws"); }
        if (ok != !m.empty()) bad("a message is missing");
        if (ok) { if (string(b, n) != m.front()) bad("a message is changed"); m.pop_front(); }
      }
    }
  }
  good();
}
'''
SRCS=" "
