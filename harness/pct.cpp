// Entry points whose code is analysed (never executed).  verif_* are modelled by the analysis.
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
using namespace boost::urls;
extern "C" {
void verif_str(int tag, const char* p, std::size_t n);
void verif_int(int tag, long v);
}
static inline void str(int tag, string_view s) { verif_str(tag, s.data(), s.size()); }
static inline void text(int tag, std::string const& s) { verif_str(tag, s.data(), s.size()); }
template<class U> static inline void decoded(U const& u)
{
    text(60, u.user());
    text(61, u.password());
    text(62, u.host());
    text(63, u.query());
    text(64, u.fragment());
}
template<class U> static inline void lists(U& u)
{
    auto const s = u.segments();
    for(auto it = s.begin(); it != s.end(); ++it)
        text(65, it->string());
    auto const p = u.params();
    for(auto it = p.begin(); it != p.end(); ++it)
    {
        text(66, it->key());
        text(67, it->value());
    }
}
template<class S> static inline void look(S const& s, string_view k)
{
    text(70, s[k]);
    try { text(71, s.at(k)); }
    catch(...) { verif_int(72, 1); }
}
extern "C" {
void h_view_dec(const char* p, std::size_t n) { url_view const u(string_view(p, n)); decoded(u); lists(u); }
void h_url_dec(const char* p, std::size_t n) { url u; u.set_encoded_url(string_view(p, n)); decoded(u); lists(u); }
void h_curl_dec(const char* p, std::size_t n) { url u; u.set_encoded_url(string_view(p, n)); url const& c = u; lists(c); }
void h_view_at(const char* p, std::size_t n, const char* k, std::size_t m) { url_view const u(string_view(p, n)); look(u.params(), string_view(k, m)); }
void h_url_at(const char* p, std::size_t n, const char* k, std::size_t m) { url u; u.set_encoded_url(string_view(p, n)); look(u.params(), string_view(k, m)); }
void h_plain(const char* p, std::size_t n, const char* q, std::size_t m, int op)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    string_view const a(q, m);
    int threw = 0;
    try
    {
        switch(op)
        {
        case 0: u.set_user(a); break;
        case 1: u.set_password(a); break;
        case 2: u.set_host(a); break;
        case 3: u.set_query(a); break;
        case 4: u.set_fragment(a); break;
        }
    }
    catch(...)
    {
        threw = 1;
    }
    verif_int(33, threw);
    verif_str(40, u.data(), u.size() + 1);
    str(50, u.scheme());
    str(51, u.encoded_user());
    str(52, u.encoded_password());
    str(53, u.encoded_host());
    str(54, u.port());
    str(55, u.encoded_path());
    str(56, u.encoded_query());
    str(57, u.encoded_fragment());
    verif_int(58, static_cast<int>(u.host_type()));
    if(! threw)
        switch(op)
        {
        case 0: text(60, u.user()); break;
        case 1: text(61, u.password()); break;
        case 2: text(62, u.host()); break;
        case 3: text(63, u.query()); break;
        case 4: text(64, u.fragment()); break;
        }
}
}
