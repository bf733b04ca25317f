// Instrumented part of the log harness: forwards to the real logger.
#include "logging/logging.h"
#include "Logger.h"
#include "log.h"
static std::shared_ptr<riptide::logging::logger> * g_logger;
void sut_logger() { g_logger = new std::shared_ptr<riptide::logging::logger>(riptide::logging::get_logger("T")); }
void sut_log(int id, int level)
{
    auto lv = static_cast<riptide::logging::loglevel>(level);
    (*g_logger)->log(lv, "m{}", id);
}
void sut_setup() { SetupLogging(); }
PyObject * sut_enable(PyObject * args) { return EnableLogging(nullptr, args); }
PyObject * sut_disable(PyObject * args) { return DisableLogging(nullptr, args); }
void sut_cleanup() { CleanupLogging(); }
bool sut_active() { return riptide::logging::get_service()->enabled(); }
