#include <boost/system/error_code.hpp>
#include <stdexcept>
namespace boost { namespace system {
class system_error : public std::runtime_error { error_code c_; public:
 system_error(error_code const& c): std::runtime_error(""), c_(c) {} error_code const& code() const noexcept { return c_; } };
}}
