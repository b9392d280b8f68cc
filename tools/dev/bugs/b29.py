PROP="C29"
NEEDS="an escape of a character from U+0080 to U+07FF whose low six bits matter, at the boundary U+07FF"
BREAKS="the last character of two bytes is written with three"
EDITS=[("include/CAnyValue.h","""            else if (cp <= 0x7FF)
            {
""","""            else if (cp < 0x7FF)
            {
""")]
SRCS="src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "CAnyValue.h"
int main() {
  lce::CAnyValue v;
  const char *j = "{\"a\":\"\\u07ff\"}"; v.decodeJSON(j, strlen(j));
  std::string s = v["a"];
  if (s != "\xdf\xbf") bad("U+07FF");
  good();
}
'''
