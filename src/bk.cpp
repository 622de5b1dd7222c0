#include <dlfcn.h>
#include <poll.h>

#include "bk.hpp"

#ifndef BK_STD
namespace bk {
int gLoopFiber = -1;

#if defined(BK_QT)
std::shared_ptr<DispT> Backend::create(size_t cache) {
    auto d = DispT::create(cache);
    if (!d->start()) pbt::dieWithFailure("start", "start() failed");
    loop = fib::daemon("loop", [this]() {
        QEventLoop l;
        el = &l;
        if (!quit) l.exec();
        el = nullptr;
    });
    gLoopFiber = loop;
    return d;
}
void Backend::stopLoop() {
    if (loop < 0) return;
    quit = true;
    if (el) el->quit();
    g_main_context_wakeup(nullptr);
    fib::activity();
    fib::joinDaemon(loop);
    loop = -1;
    gLoopFiber = -1;
}
void Backend::pump() {
    for (int i = 0; i < 3; ++i) {
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        while (g_main_context_iteration(nullptr, FALSE)) {}
    }
}
static QCoreApplication* app;
void mainInit(int argc, char** argv) {
    static int n = 1;
    (void)argc;
    app = new QCoreApplication(n, argv);
    if (!QAbstractEventDispatcher::instance()->inherits("QEventDispatcherGlib")) {
        fprintf(stderr, "unexpected event dispatcher\n");
        exit(3);
    }
}
#else
#if defined(BK_GLIBMM)
#define CTX ctx->gobj()
#else
#define CTX ctx
#endif
static gint simulatedPoll(GPollFD* f, guint n, gint ms) { return poll(reinterpret_cast<pollfd*>(f), n, ms); }
std::shared_ptr<DispT> Backend::create(size_t cache) {
#if defined(BK_GLIBMM)
    ctx = Glib::MainContext::create();
#else
    ctx = g_main_context_new();
#endif
    g_main_context_set_poll_func(CTX, simulatedPoll);
    auto d = DispT::create(ctx, cache);
    if (!d->start()) pbt::dieWithFailure("start", "start() failed");
    loop = fib::daemon("loop", [this]() {
        while (!quit) g_main_context_iteration(CTX, TRUE);
    });
    gLoopFiber = loop;
    return d;
}
void Backend::stopLoop() {
    if (loop < 0) return;
    quit = true;
    g_main_context_wakeup(CTX);
    fib::activity();
    fib::joinDaemon(loop);
    loop = -1;
    gLoopFiber = -1;
}
void Backend::pump() {
    while (g_main_context_iteration(CTX, FALSE)) {}
}
void mainInit(int, char**) {
#if defined(BK_GLIBMM)
    Glib::init();
#endif
}
#endif
static gboolean runTask(gpointer p) {
    (*static_cast<std::function<void()>*>(p))();
    return G_SOURCE_REMOVE;
}
void Backend::invoke(const std::function<void()>& fn) {
    if (loop < 0) { fn(); return; }
    bool done = false;
    std::function<void()> task = [&]() {
        fn();
        fib::Quiet q;
        done = true;
        fib::activity();
    };
    GSource* s = g_idle_source_new();
    g_source_set_priority(s, G_PRIORITY_DEFAULT);
    g_source_set_callback(s, runTask, &task, nullptr);
#if defined(BK_QT)
    g_source_attach(s, nullptr);
#else
    g_source_attach(s, CTX);
#endif
    g_source_unref(s);
    fib::activity();
    while (!done) fib::waitActivity(-1);
}
void Backend::close() {
    stopLoop();
    pump();
#if defined(BK_GLIB)
    g_main_context_unref(ctx);
#elif defined(BK_GLIBMM)
    ctx.reset();
#endif
}
void Backend::finish(std::shared_ptr<hsmcpp::IHsmEventDispatcher>& d) {
    stopLoop();
    std::weak_ptr<hsmcpp::IHsmEventDispatcher> w = d;
    d.reset();
    pump();
    if (!w.expired()) pbt::dieWithFailure("leak", "dispatcher is still referenced");
#if defined(BK_GLIB)
    g_main_context_unref(ctx);
#elif defined(BK_GLIBMM)
    ctx.reset();
#endif
}
}  // namespace bk

// activity inside of the event loop's context
extern "C" {
guint g_source_attach(GSource* s, GMainContext* c) {
    static auto real = reinterpret_cast<guint (*)(GSource*, GMainContext*)>(dlsym(RTLD_NEXT, "g_source_attach"));
    guint r = real(s, c);
    fib::activity();
    return r;
}
}

#if defined(BK_QT)
// fibers other than the loop are foreign threads
extern "C" {
QThread* __real__ZN7QThread13currentThreadEv();
QThread* __wrap__ZN7QThread13currentThreadEv() {
    static QThread* other = new QThread;
    if (bk::gLoopFiber >= 0 && fib::self() != bk::gLoopFiber) return other;
    return __real__ZN7QThread13currentThreadEv();
}
void __real__ZN7QObject11deleteLaterEv(QObject* o);
void __wrap__ZN7QObject11deleteLaterEv(QObject* o) {
    if (bk::gLoopFiber >= 0 && fib::self() != bk::gLoopFiber) QMetaObject::invokeMethod(o, "deleteLater", Qt::QueuedConnection);
    else __real__ZN7QObject11deleteLaterEv(o);
}
}
#endif
#endif
