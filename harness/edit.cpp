// Entry points whose code is analysed (never executed).  verif_* are modelled by the analysis.
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
using namespace boost::urls;
struct rng { const char* p; std::size_t n; };
static inline void put(rng& r, string_view s) { r.p = s.data(); r.n = s.size(); }
struct obs
{
    rng v[17];
    std::size_t nseg, nparam;
    int host, has_authority, has_userinfo, threw;
    const char* data;
    rng pwpart;
};
extern "C" {
const char* verif_arg(int k, std::size_t* n);   // a fresh string of the argument language k
int verif_mark(int);                            // the URL is built: generalise
int verif_choice(int lo, int hi);               // some operation in [lo, hi)
void verif_check(obs*);                          // the expectations are checked here
unsigned verif_num(void);                       // any number
}
#define ARG(k) std::size_t n; const char* q = verif_arg(k, &n); string_view const s(q, n)
static inline void observe(url const& u, obs* o)
{
    put(o->v[0], u.encoded_url());
    put(o->v[1], u.encoded_origin());
    put(o->v[2], u.scheme());
    put(o->v[3], u.encoded_authority());
    put(o->v[4], u.encoded_userinfo());
    put(o->v[5], u.userinfo_part());
    put(o->v[6], u.encoded_user());
    put(o->v[7], u.encoded_password());
    put(o->v[8], u.encoded_host_and_port());
    put(o->v[9], u.encoded_host());
    put(o->v[10], u.port());
    put(o->v[11], u.port_part());
    put(o->v[12], u.encoded_path());
    put(o->v[13], u.encoded_query());
    put(o->v[14], u.query_part());
    put(o->v[15], u.encoded_fragment());
    put(o->v[16], u.fragment_part());
    o->nseg = u.segments().size();
    o->nparam = u.params().size();
    o->host = static_cast<int>(u.host_type());
    o->has_authority = u.has_authority();
    o->has_userinfo = u.has_userinfo();
    o->data = u.data();
    put(o->pwpart, u.password_part());
}
static inline void apply(url& u, int op)
{
    switch(op)
    {
    case 0: { ARG(0); u.set_encoded_url(s); break; }
    case 1: { ARG(1); u.set_encoded_origin(s); break; }
    case 2: { ARG(2); u.set_scheme(s); break; }
    case 3: { ARG(3); u.set_encoded_authority(s); break; }
    case 4: { ARG(4); u.set_encoded_userinfo(s); break; }
    case 5: { ARG(5); u.set_userinfo_part(s); break; }
    case 6: { ARG(6); u.set_encoded_user(s); break; }
    case 7: { ARG(7); u.set_encoded_password(s); break; }
    case 8: { ARG(8); u.set_password_part(s); break; }
    case 9: { ARG(9); u.set_encoded_host(s); break; }
    case 10: { ARG(10); u.set_port(s); break; }
    case 11: { ARG(11); u.set_port_part(s); break; }
    case 12: { ARG(12); u.set_encoded_path(s); break; }
    case 13: { ARG(13); u.set_encoded_query(s); break; }
    case 14: { ARG(14); u.set_query_part(s); break; }
    case 15: { ARG(15); u.set_encoded_fragment(s); break; }
    case 16: { ARG(16); u.set_fragment_part(s); break; }
    case 17: { ARG(17); u.set_user(s); break; }
    case 18: { ARG(18); u.set_password(s); break; }
    case 19: { ARG(19); u.set_host(s); break; }
    case 20: { ARG(20); u.set_query(s); break; }
    case 21: { ARG(21); u.set_fragment(s); break; }
    case 22: { u.set_port(verif_num()); break; }
    case 23: { u.normalize(); break; }
    case 24: { u.normalize_scheme(); break; }
    }
}
extern "C" {
// a URL holding a parsed string, one modification, every observer
void h_edit(const char* p, std::size_t n, obs* o, int op)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    if(verif_mark(0))
        verif_mark(0);
    verif_mark(1);
    o->threw = 0;
    try { apply(u, op); } catch(...) { o->threw = 1; }
    observe(u, o);
    verif_check(o);
}
// the same with spare capacity: a fragment was removed before
void h_slack(const char* p, std::size_t n, obs* o, int op)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    if(verif_mark(0))
        verif_mark(0);
    u.set_encoded_fragment(string_view());
    verif_mark(2);
    o->threw = 0;
    try { apply(u, op); } catch(...) { o->threw = 1; }
    observe(u, o);
    verif_check(o);
}
}
