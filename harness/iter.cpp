// Entry points whose code is analysed (never executed).  verif_* are modelled by the analysis.
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
using namespace boost::urls;
extern "C" {
void verif_str(int tag, const char* p, std::size_t n);
void verif_int(int tag, long v);
}
static inline void str(int tag, string_view s) { verif_str(tag, s.data(), s.size()); }
template<class S> static inline void segs(S const& s)
{
    verif_int(1, static_cast<long>(s.size()));
    verif_int(2, s.empty());
    auto const b = s.begin();
    auto const e = s.end();
    for(auto it = b; it != e; ++it)
        str(3, it->encoded_string());
    for(auto it = e; it != b;)
    {
        --it;
        str(4, (*it).encoded_string());
    }
    for(auto it = b; it != e;)
    {
        auto const k = it++;
        str(5, k->encoded_string());
        auto t = it;
        verif_int(6, t-- == it);
        verif_int(7, t == k && !(t != k));
    }
}
template<class S> static inline void pars(S const& s)
{
    verif_int(11, static_cast<long>(s.size()));
    verif_int(12, s.empty());
    auto const b = s.begin();
    auto const e = s.end();
    for(auto it = b; it != e; ++it)
    {
        str(13, it->encoded_key());
        str(14, it->encoded_value());
    }
    for(auto it = e; it != b;)
    {
        --it;
        str(15, (*it).encoded_key());
        str(16, (*it).encoded_value());
    }
    for(auto it = b; it != e;)
    {
        auto const k = it++;
        str(17, k->encoded_key());
        auto t = it;
        verif_int(6, t-- == it);
        verif_int(7, t == k && !(t != k));
    }
}
template<class S> static inline void find(S const& s, string_view k)
{
    verif_int(21, s.contains(k));
    verif_int(22, static_cast<long>(s.count(k)));
    auto it = s.find(k);
    auto const e = s.end();
    long i = 0;
    for(auto j = s.begin(); j != it && j != e; ++j)
        ++i;
    verif_int(23, i);
    verif_int(24, it == e);
    if(it != e)
        str(25, it->encoded_value());
}
#define VIEW url_view const u(string_view(p, n))
#define URL url u; u.set_encoded_url(string_view(p, n))
extern "C" {
void h_vs(const char* p, std::size_t n) { VIEW; segs(u.segments()); }
void h_us(const char* p, std::size_t n) { URL; segs(u.segments()); }
void h_cs(const char* p, std::size_t n) { URL; url const& c = u; segs(c.segments()); }
void h_vp(const char* p, std::size_t n) { VIEW; pars(u.params()); }
void h_up(const char* p, std::size_t n) { URL; pars(u.params()); }
void h_cp(const char* p, std::size_t n) { URL; url const& c = u; pars(c.params()); }
void h_vk(const char* p, std::size_t n, const char* k, std::size_t m) { VIEW; find(u.params(), string_view(k, m)); }
void h_uk(const char* p, std::size_t n, const char* k, std::size_t m) { URL; find(u.params(), string_view(k, m)); }
void h_ve() { url_view const u; segs(u.segments()); pars(u.params()); segs(url_view::segments_type()); pars(url_view::params_type()); }
void h_ue() { url u; segs(u.segments()); pars(u.params()); }
}
