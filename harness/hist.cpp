// Entry points whose code is analysed (never executed).  verif_* are modelled by the analysis.
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
using namespace boost::urls;
extern "C" {
void verif_str(int tag, const char* p, std::size_t n);
void verif_int(int tag, long v);
int verif_choose(int n);
}
static inline void str(int tag, string_view s) { verif_str(tag, s.data(), s.size()); }
static inline int eq(string_view a, string_view b) { return a.size() == b.size() && (a.empty() || a.data() == b.data()); }
// do all observers agree with those of a view of the text?  0: yes, else the number of the first that does not
static inline int agree(url const& u)
{
    try
    {
        url_view const w(u.encoded_url());
        if(! eq(u.encoded_origin(), w.encoded_origin())) return 2;
        if(! eq(u.scheme(), w.scheme())) return 3;
        if(! eq(u.encoded_authority(), w.encoded_authority())) return 4;
        if(! eq(u.encoded_userinfo(), w.encoded_userinfo())) return 5;
        if(! eq(u.userinfo_part(), w.userinfo_part())) return 6;
        if(! eq(u.encoded_user(), w.encoded_user())) return 7;
        if(! eq(u.encoded_password(), w.encoded_password())) return 8;
        if(! eq(u.encoded_host_and_port(), w.encoded_host_and_port())) return 9;
        if(! eq(u.encoded_host(), w.encoded_host())) return 10;
        if(! eq(u.port(), w.port())) return 11;
        if(! eq(u.port_part(), w.port_part())) return 12;
        if(! eq(u.encoded_path(), w.encoded_path())) return 13;
        if(! eq(u.encoded_query(), w.encoded_query())) return 14;
        if(! eq(u.query_part(), w.query_part())) return 15;
        if(! eq(u.encoded_fragment(), w.encoded_fragment())) return 16;
        if(! eq(u.fragment_part(), w.fragment_part())) return 17;
        if(u.segments().size() != w.segments().size()) return 18;
        if(u.params().size() != w.params().size()) return 19;
        if(u.host_type() != w.host_type()) return 20;
        if(u.has_authority() != w.has_authority()) return 22;
        if(u.has_userinfo() != w.has_userinfo()) return 21;
        return 0;
    }
    catch(...)
    {
        return 1;
    }
}
static inline void whole(url& u, string_view a, int op, unsigned n)
{
    int threw = 0;
    try
    {
        switch(op)
        {
        case 0: u.set_encoded_url(a); break;
        case 1: u.set_encoded_origin(a); break;
        case 2: u.set_encoded_authority(a); break;
        case 3: u.set_port(n); break;
        case 4: u.normalize(); break;
        case 5: u.normalize_scheme(); break;
        }
    }
    catch(...)
    {
        threw = 1;
    }
    verif_int(33, threw);
    verif_str(40, u.data(), u.size() + 1);
    str(41, u.encoded_url());
    verif_int(80, u.capacity() >= u.size());
    verif_int(81, agree(u));
}
#define A1(...) static char const* const t[] = { __VA_ARGS__ }; string_view const a(t[verif_choose(sizeof t / sizeof *t)])
static inline url::segments_type::iterator last(url& u)
{
    auto it = u.segments().end();
    return --it;
}
static inline void modify(url& u, int op)
{
    switch(op)
    {
    case 0: { A1("", "j:q", "//h/p?q#f"); u.set_encoded_url(a); break; }
    case 1: { A1("", "j:", "j://h:9"); u.set_encoded_origin(a); break; }
    case 2: { A1("", "j"); u.set_scheme(a); break; }
    case 3: { A1("", "h", "u:p@[::1]:9", ":9"); u.set_encoded_authority(a); break; }
    case 4: { A1("", "u", "u:p"); u.set_encoded_userinfo(a); break; }
    case 5: { A1("@", "u@", ":p@"); u.set_userinfo_part(a); break; }
    case 6: { A1("", "u"); u.set_encoded_user(a); break; }
    case 7: { A1("", "p"); u.set_encoded_password(a); break; }
    case 8: { A1("", ":", ":p"); u.set_password_part(a); break; }
    case 9: { A1("", "h", "1.2.3.4", "[::1]"); u.set_encoded_host(a); break; }
    case 10: { A1("", "9"); u.set_port(a); break; }
    case 11: { A1("", ":", ":9"); u.set_port_part(a); break; }
    case 12: { A1("", "/", "/p", "p/q", "//p", "p:q"); u.set_encoded_path(a); break; }
    case 13: { A1("", "q", "k=v&k"); u.set_encoded_query(a); break; }
    case 14: { A1("", "?", "?k=v&k"); u.set_query_part(a); break; }
    case 15: { A1("", "f"); u.set_encoded_fragment(a); break; }
    case 16: { A1("", "#", "#f"); u.set_fragment_part(a); break; }
    case 17: { A1("", "u", "/:"); u.set_user(a); break; }
    case 18: { A1("", "p", "/:"); u.set_password(a); break; }
    case 19: { A1("", "h", "[::", "[::1]"); u.set_host(a); break; }
    case 20: { A1("", "k=v&k", "#"); u.set_query(a); break; }
    case 21: { A1("", "f", "#"); u.set_fragment(a); break; }
    case 22: { u.set_port(80u); break; }
    case 23: { u.normalize(); break; }
    case 24: { A1("", "p", "p:q"); u.segments().insert_encoded(u.segments().begin(), a); break; }
    case 25: { A1("", "p", "/:"); u.segments().insert(u.segments().end(), a); break; }
    case 26: { if(! u.segments().empty()) u.segments().erase(u.segments().begin()); break; }
    case 27: { if(! u.segments().empty()) u.segments().erase(last(u)); break; }
    case 28: { A1("", "p"); if(! u.segments().empty()) u.segments().replace(u.segments().begin(), a); break; }
    case 29: { A1("", "p"); if(! u.segments().empty()) u.segments().replace_encoded(last(u), a); break; }
    }
}
static inline int step(url& u, int op)
{
    int threw = 0;
    try { modify(u, op); } catch(...) { threw = 1; }
    verif_int(82, op);
    verif_int(33, threw);
    verif_str(40, u.data(), u.size() + 1);
    int const k = agree(u);
    verif_int(81, k);
    if(k)
    {
        // the shape of the components
        verif_int(83, u.scheme().size() != 0);
        verif_int(84, u.encoded_origin().size() > u.scheme().size() + (u.scheme().size() != 0));
        str(85, u.encoded_path());
    }
    return k == 0;
}
extern "C" {
void h_whole(const char* p, std::size_t n, const char* q, std::size_t m, int op, unsigned x)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    whole(u, string_view(q, m), op, x);
}
void h_whole0(const char* q, std::size_t m, int op, unsigned x)
{
    url u;
    whole(u, string_view(q, m), op, x);
}
void h_hist(const char* p, std::size_t n, int op1, int op2)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    if(step(u, op1) && op2 >= 0)
        step(u, op2);
}
void h_hist0(int op1, int op2)
{
    url u;
    if(step(u, op1) && op2 >= 0)
        step(u, op2);
}
}
// assignment: 0: a = b; 1: a = a; 2: a = b, then b changes; 3: a = b, then a changes; 4: b into a fresh URL; 5: a fresh URL into a
static inline void report(url& u)
{
    verif_str(40, u.data(), u.size() + 1);
    str(41, u.encoded_url());
    verif_int(80, u.capacity() >= u.size());
    verif_int(81, agree(u));
}
static inline void assign(url& a, url& b, int mode)
{
    int threw = 0;
    url& r = mode == 1 ? a : b;
    try
    {
        a = r;
    }
    catch(...)
    {
        threw = 1;
    }
    verif_int(33, threw);
    if(mode == 2)
        b.set_encoded_url("//c/d");
    if(mode == 3 && ! threw)
        a.set_encoded_url("//c/d");
    report(a);
    report(b);
}
extern "C" {
void h_assign(const char* p, std::size_t n, const char* q, std::size_t m, int mode)
{
    url a;
    a.set_encoded_url(string_view(p, n));
    url b;
    b.set_encoded_url(string_view(q, m));
    assign(a, b, mode);
}
void h_assign4(const char* q, std::size_t m)
{
    url a, b;
    b.set_encoded_url(string_view(q, m));
    assign(a, b, 4);
}
void h_assign5(const char* p, std::size_t n)
{
    url a, b;
    a.set_encoded_url(string_view(p, n));
    assign(a, b, 5);
}
}
