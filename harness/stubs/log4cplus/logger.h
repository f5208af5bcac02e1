// Silent stand-in for log4cplus: the drivers need no log output and no logger threads.
#pragma once
#include <string>
#include <memory>
#define LOG4CPLUS_TEXT(x) x
namespace log4cplus {
typedef std::string tstring;
namespace helpers { template <class T> struct SharedObjectPtr { T* p; SharedObjectPtr(T* q = nullptr) : p(q) {} T* operator->() const { return p; } }; }
enum { OFF_LOG_LEVEL, FATAL_LOG_LEVEL, ERROR_LOG_LEVEL, WARN_LOG_LEVEL, INFO_LOG_LEVEL, DEBUG_LOG_LEVEL, TRACE_LOG_LEVEL, ALL_LOG_LEVEL };
struct Layout { virtual ~Layout() {} };
struct PatternLayout : Layout { PatternLayout(const tstring&) {} };
struct Appender { virtual ~Appender() {} void setName(const tstring&) {} template <class T> void setLayout(T) {} };
struct ConsoleAppender : Appender {};
struct Logger { static Logger getRoot() { return Logger(); } static Logger getInstance(const tstring&) { return Logger(); }
    void setLogLevel(int) {} template <class T> void addAppender(const T&) {} };
struct BasicConfigurator { void configure() {} static void doConfigure() {} };
inline void initialize() {}
}
#define VF_NOLOG(l, m) do { (void)(l); } while (0)
#define LOG4CPLUS_WARN(l, m) VF_NOLOG(l, m)
#define LOG4CPLUS_DEBUG(l, m) VF_NOLOG(l, m)
#define LOG4CPLUS_ERROR(l, m) VF_NOLOG(l, m)
#define LOG4CPLUS_INFO(l, m) VF_NOLOG(l, m)
#define LOG4CPLUS_FATAL(l, m) VF_NOLOG(l, m)
#define LOG4CPLUS_TRACE(l, m) VF_NOLOG(l, m)
