PROP="C22"
NEEDS="a string of exactly 256 bytes in a value that is encoded and decoded"
BREAKS="its length is written as one byte 0 and what follows is decoded as other values"
EDITS=[("include/CAnyValue.h","            if (value.buf->size() <= 0xFF)\n","            if (value.buf->size() <= 0x100)\n")]
SRCS="src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CAnyValue.h"
int main() {
  lce::CAnyValue v, w;
  v["k"] = std::string(256, 'x');
  std::string b;
  v.encode(b);
  try { w.decode(b.data(), b.size()); } catch (std::exception &e) { bad("cannot be decoded"); }
  std::string s = w["k"];
  if (s != std::string(256, 'x')) bad("the string of 256 bytes came back different");
  good();
}
'''
