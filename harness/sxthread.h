// Body of every std::thread: the engine (and the native baton scheduler) hand over the std::thread::_State pointer.
#include "sx.h"
struct SxThreadState { virtual ~SxThreadState() = default; virtual void run() = 0; }; // same vtable layout as std::thread::_State
extern "C" void sx_thread_main(void *st) { SxThreadState *p = (SxThreadState *)st; p->run(); delete p; }
