#pragma once
#include <ostream>
#include <boost/exception/diagnostic_information.hpp>
namespace boost::stacktrace {
struct stacktrace { };
inline std::ostream& operator<<(std::ostream& o, stacktrace const&) { return o << "(stack trace)"; }
inline std::string to_string(stacktrace const&) { return "(stack trace)"; }
}
namespace takatori::util { using stacktrace = boost::stacktrace::stacktrace; }
