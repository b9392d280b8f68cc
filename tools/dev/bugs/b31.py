PROP="C31"
NEEDS="a date in January of a leap year"
BREAKS="the time is a day early or late"
EDITS=[("src/Utils.cpp","""        if (month > 10)
            year--;
""","""        if (month >= 10)
            year--;
""")]
NEEDS="a date in December"
BREAKS="the time is a year early"
SRCS="src/Utils.cpp"
DEMO=r'''
#include "demo.h"
#include "lce.h"
#include "Utils.h"
int main() {
  if (lce::Gmt2Time("Thu, 31 Dec 2015 23:59:59 GMT") != 1451606399) bad("december");
  good();
}
'''
