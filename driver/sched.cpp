// Linked into a tool under test: the threads it starts finish their start-up in an order given by SCHED
// (numbers of threads in the order of their creation).  A thread whose turn does not come within a short
// time goes on, so the order is a request only.
#include <dlfcn.h>
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <vector>
#include <atomic>
namespace {
struct Start { void * (*f)(void *); void * a; int no; };
std::vector<int> order;
bool parsed = false;
int created = 0;
std::mutex m;
std::condition_variable cv;
size_t turn = 0;
void parse() {
	if (parsed) return;
	parsed = true;
	const char * s = getenv("SCHED");
	while (s && *s) { order.push_back(atoi(s)); s = strchr(s, ','); if (s) s++; }
}
void * run(void * p) {
	Start s = *static_cast<Start *>(p);
	delete static_cast<Start *>(p);
	bool mine = false;
	{
		std::unique_lock<std::mutex> l(m);
		for (size_t i = 0; i < order.size(); i++) mine = mine || order[i] == s.no;
		if (mine) cv.wait_for(l, std::chrono::milliseconds(300), [&] { return turn >= order.size() || order[turn] == s.no; });
	}
	void * r = s.f(s.a);
	if (mine) {
		std::unique_lock<std::mutex> l(m);
		if (turn < order.size() && order[turn] == s.no) turn++;
		cv.notify_all();
	}
	return r;
}
}
extern "C" int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*f)(void *), void * arg) {
	typedef int (*Real)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
	static Real real = reinterpret_cast<Real>(dlsym(RTLD_NEXT, "pthread_create"));
	Start * s = new Start();
	s->f = f; s->a = arg;
	{ std::unique_lock<std::mutex> l(m); parse(); s->no = ++created; }
	return real(t, a, run, s);
}
