#pragma once
#include <string>
namespace phosphor
{
namespace logging
{
enum class level
{
    EMERG, ALERT, CRIT, ERR, WARNING, NOTICE, INFO, DEBUG
};
struct entry_t
{
};
template <typename... A>
entry_t entry(const char* fmt, A&&... a);
template <level L, typename M, typename... E>
void log(M&& msg, E&&... e);
} // namespace logging
} // namespace phosphor
