// The dispatcher under test: type, event loop and the rules for its lifetime.
#pragma once
#include "fib.hpp"

#if defined(BK_GLIB)
#include <glib.h>

#include "hsmcpp/HsmEventDispatcherGLib.hpp"
#elif defined(BK_GLIBMM)
#include <glib.h>
#include <glibmm.h>

#include "hsmcpp/HsmEventDispatcherGLibmm.hpp"
#elif defined(BK_QT)
#include <glib.h>

#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QEventLoop>
#include <QThread>
#include <QTimer>

#include "hsmcpp/HsmEventDispatcherQt.hpp"
#undef signals
#else
#define BK_STD 1
#include "hsmcpp/HsmEventDispatcherSTD.hpp"
#endif

namespace bk {

#if defined(BK_STD)
using DispT = hsmcpp::HsmEventDispatcherSTD;
constexpr const char* NAME = "STD";
constexpr int64_t DRIFT = 0;                   // allowed additional delay per period
constexpr int64_t MAX_INTERVAL = 4294967295LL; // ms
constexpr bool SIGNALS = true;                 // may be used from signal handlers
struct Backend {
    std::shared_ptr<DispT> create(size_t cache = 10) { return DispT::create(cache); }
    void finish(std::shared_ptr<hsmcpp::IHsmEventDispatcher>& d) {
        d.reset();
        fib::settle(10 * fib::MS);
    }
};
inline void mainInit(int, char**) {}
#else
constexpr int64_t DRIFT = fib::MS;  // milliseconds are rounded up for each period

#if defined(BK_QT)
using DispT = hsmcpp::HsmEventDispatcherQt;
constexpr const char* NAME = "Qt";
constexpr bool SIGNALS = false;
constexpr int64_t MAX_INTERVAL = 2147480000LL;  // Qt itself fails for the last ones
#elif defined(BK_GLIBMM)
using DispT = hsmcpp::HsmEventDispatcherGLibmm;
constexpr const char* NAME = "GLibmm";
constexpr bool SIGNALS = true;
constexpr int64_t MAX_INTERVAL = 4294967295LL;
#else
using DispT = hsmcpp::HsmEventDispatcherGLib;
constexpr const char* NAME = "GLib";
constexpr bool SIGNALS = true;
constexpr int64_t MAX_INTERVAL = 4294967295LL;
#endif

extern int gLoopFiber;  // fiber which runs the event loop (-1: none)

// The event loop runs in its own thread. Creation, start and destruction happen in its thread's place (before it starts or after
// it has ended), as documented.
struct Backend {
    bool quit = false;
    int loop = -1;
    std::shared_ptr<DispT> create(size_t cache = 10);
    void finish(std::shared_ptr<hsmcpp::IHsmEventDispatcher>& d);
    void stopLoop();
    void pump();
    void invoke(const std::function<void()>& fn);  // run it inside of the loop, and wait for it
    void close();                                  // after the last reference was dropped
#if defined(BK_QT)
    QEventLoop* el = nullptr;
#elif defined(BK_GLIBMM)
    Glib::RefPtr<Glib::MainContext> ctx;
#else
    GMainContext* ctx = nullptr;
#endif
};
void mainInit(int argc, char** argv);
#endif

}  // namespace bk
