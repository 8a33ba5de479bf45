// Entry points whose code is analysed (never executed).
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
#include <boost/url/scheme.hpp>
using namespace boost::urls;
struct rng { const char* p; std::size_t n; };
extern "C" {
int h_scheme(const char* p, std::size_t n, void*) { return static_cast<int>(string_to_scheme(string_view(p, n))); }
int h_special(const char* p, std::size_t n, void*) { return is_special(string_view(p, n)); }
void h_scheme_name(int k, rng* o) { string_view s = to_string(static_cast<scheme>(k)); o->p = s.data(); o->n = s.size(); }
int h_known(int k)
{
    switch(k)
    {
    case 0: return static_cast<int>(scheme::unknown);
    case 1: return static_cast<int>(scheme::ftp);
    case 2: return static_cast<int>(scheme::file);
    case 3: return static_cast<int>(scheme::http);
    case 4: return static_cast<int>(scheme::https);
    case 5: return static_cast<int>(scheme::ws);
    case 6: return static_cast<int>(scheme::wss);
    }
    return -1;
}
}
