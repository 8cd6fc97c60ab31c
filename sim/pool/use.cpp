#include "utils/thread/ScheduledThreadPool.h"
#include "use.h"
struct Pool { ScheduledThreadPool p; Pool() {} explicit Pool(unsigned n) : p(n) {} };
Pool *poolDefault() { return new Pool(); }
Pool *poolOf(unsigned n) { return new Pool(n); }
void poolDestroy(Pool *p) { delete p; }
std::future<int> submitInt(Pool *p, const std::function<int()> &f) { return p->p.submit<int>(f); }
std::future<std::string> submitStr(Pool *p, const std::function<std::string()> &f) { return p->p.submit<std::string>(f); }
std::future<void> submitVoid(Pool *p, const std::function<void()> &f) { return p->p.submit(f); }
std::future<void> submitVoidT(Pool *p, const std::function<void()> &f) { return p->p.submit<void>(f); }
std::future<std::unique_ptr<int>> submitPtr(Pool *p, const std::function<std::unique_ptr<int>()> &f) { return p->p.submit<std::unique_ptr<int>>(f); }
std::future<int &> submitRef(Pool *p, const std::function<int &()> &f) { return p->p.submit<int &>(f); }
