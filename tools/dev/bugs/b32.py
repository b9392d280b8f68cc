PROP="C32"
NEEDS="two or more threads waiting on the condition when it is broadcast"
BREAKS="broadcast wakes one of the waiting threads only, the others sleep on"
EDITS=[("include/CLock.h","return 0 == ::pthread_cond_broadcast(&m_sect);","return 0 == ::pthread_cond_signal(&m_sect);")]
DEMO=r'''
#include "demo.h"
#include "CLock.h"
static lce::CMutex m;
static lce::Condition *c;
static bool open_;
static volatile int in, out;
static void *w(void *) { m.lock(); in++; while (!open_) c->wait(m); out++; m.unlock(); return 0; }
int main() {
  c = new lce::Condition;
  pthread_t t[3];
  for (int i = 0; i < 3; i++) pthread_create(&t[i], 0, w, 0);
  for (int i = 0; i < 500 && in < 3; i++) ms(10);
  ms(100);
  m.lock(); open_ = true; c->broadcast(); m.unlock();
  for (int i = 0; i < 500 && out < 3; i++) ms(10);
  if (out < 3) bad("a waiting thread was not woken");
  good();
}
'''
