// Stand-in: spdlog_setup is not installed here; configuration files are not supported by the harnesses.
#ifndef VERIF_SHIM_SPDLOG_SETUP_H
#define VERIF_SHIM_SPDLOG_SETUP_H
#include <stdexcept>
#include <string>
namespace spdlog_setup {
inline void from_file(const std::string&) { throw std::runtime_error("spdlog_setup not available"); }
} // namespace spdlog_setup
#endif
