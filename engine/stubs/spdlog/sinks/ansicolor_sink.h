#pragma once
#include <spdlog/spdlog.h>
namespace spdlog { namespace sinks { class ansicolor_stdout_sink_mt : public sink {}; class ansicolor_stderr_sink_mt : public sink {}; } }
