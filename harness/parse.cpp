// Entry points whose code is analysed (never executed).
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
using namespace boost::urls;
struct rng { const char* p; std::size_t n; };
static inline void put(rng& r, string_view s) { r.p = s.data(); r.n = s.size(); }
struct obs
{
    rng v[17];
    std::size_t nseg, nparam;
    int host, has_authority, has_userinfo;
};
extern "C" {
void h_view(const char* p, std::size_t n, url_view* out) { ::new(out) url_view(string_view(p, n)); }

// every observer of a parsed URL
void h_obs(const char* p, std::size_t n, obs* o)
{
    url_view const u(string_view(p, n));
    put(o->v[0], u.encoded_url());
    put(o->v[1], u.encoded_origin());
    put(o->v[2], u.scheme());
    put(o->v[3], u.encoded_authority());
    put(o->v[4], u.encoded_userinfo());
    put(o->v[5], u.userinfo_part());
    put(o->v[6], u.encoded_user());
    put(o->v[7], u.encoded_password());
    put(o->v[8], u.encoded_host_and_port());
    put(o->v[9], u.encoded_host());
    put(o->v[10], u.port());
    put(o->v[11], u.port_part());
    put(o->v[12], u.encoded_path());
    put(o->v[13], u.encoded_query());
    put(o->v[14], u.query_part());
    put(o->v[15], u.encoded_fragment());
    put(o->v[16], u.fragment_part());
    o->nseg = u.segments().size();
    o->nparam = u.params().size();
    o->host = static_cast<int>(u.host_type());
    o->has_authority = u.has_authority();
    o->has_userinfo = u.has_userinfo();
}
}
