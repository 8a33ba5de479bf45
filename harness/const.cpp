// Entry points whose code is analysed (never executed).  verif_* are modelled by the analysis.
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
using namespace boost::urls;
extern "C" {
void verif_int(int tag, long v);
void verif_freeze(const void* p);   // from here on the object, its storage and every string are read only
void verif_thaw(void);
}
static inline void use(string_view s) { verif_int(1, static_cast<long>(s.size())); }
static inline void use(std::string const& s) { verif_int(2, static_cast<long>(s.size())); }
template<class U> __attribute__((noinline)) void encoded(U const& u)
{
    use(u.encoded_url());
    use(u.encoded_origin());
    use(u.scheme());
    use(u.encoded_authority());
    use(u.encoded_userinfo());
    use(u.userinfo_part());
    use(u.encoded_user());
    use(u.encoded_password());
    use(u.encoded_host_and_port());
    use(u.encoded_host());
    use(u.port());
    use(u.port_part());
    use(u.encoded_path());
    use(u.encoded_query());
    use(u.query_part());
    use(u.encoded_fragment());
    use(u.fragment_part());
    verif_int(3, static_cast<int>(u.host_type()));
    verif_int(3, u.has_authority());
    verif_int(3, u.has_userinfo());
}
template<class U> __attribute__((noinline)) void decoded(U const& u)
{
    use(u.user());
    use(u.password());
    use(u.host());
    use(u.query());
    use(u.fragment());
}
template<class U> __attribute__((noinline)) void lists(U const& u, string_view k)
{
    auto const s = u.segments();
    verif_int(4, static_cast<long>(s.size()));
    verif_int(4, s.empty());
    for(auto it = s.begin(); it != s.end(); ++it)
    {
        use(it->encoded_string());
        use(it->string());
    }
    for(auto it = s.end(); it != s.begin(); )
        use((*--it).encoded_string());
    auto const p = u.params();
    verif_int(4, static_cast<long>(p.size()));
    verif_int(4, p.empty());
    for(auto it = p.begin(); it != p.end(); ++it)
    {
        use(it->encoded_key());
        use(it->encoded_value());
        use(it->key());
        use(it->value());
    }
    for(auto it = p.end(); it != p.begin(); )
        use((*--it).encoded_key());
    verif_int(5, p.contains(k));
    verif_int(5, static_cast<long>(p.count(k)));
    verif_int(5, p.find(k) == p.end());
    use(p[k]);
    try { use(p.at(k)); }
    catch(...) { }
}
template<class U> __attribute__((noinline)) void all(U const& u, string_view k, int w)
{
    if(w == 0) encoded(u);
    else if(w == 1) decoded(u);
    else lists(u, k);
}
template<class U> static inline void run(U const& u, string_view k, int w)
{
    verif_freeze(&u);
    all(u, k, w);
    verif_thaw();
}
extern "C" {
void h_cview(const char* p, std::size_t n, const char* k, std::size_t m, int w) { url_view const u(string_view(p, n)); run(u, string_view(k, m), w); }
void h_curl(const char* p, std::size_t n, const char* k, std::size_t m, int w)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    if(w == 0)
        verif_int(6, u.data() != nullptr);
    run(u, string_view(k, m), w);
}
void h_curl0(const char* k, std::size_t m, int w) { url u; run(u, string_view(k, m), w); }
}
