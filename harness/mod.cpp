// Entry points whose code is analysed (never executed).  verif_* are modelled by the analysis.
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
using namespace boost::urls;
extern "C" {
void verif_str(int tag, const char* p, std::size_t n);
void verif_int(int tag, long v);
int verif_choose(int n);
}
static inline void str(int tag, string_view s) { verif_str(tag, s.data(), s.size()); }
typedef url::segments_type segs_t;
static inline long index(segs_t const& s, segs_t::iterator it)
{
    long i = 0;
    auto const e = s.end();
    for(auto j = s.begin(); j != it; ++j)
    {
        if(j == e)
            return -1;
        ++i;
    }
    return i;
}
static inline void all(url const& u)
{
    verif_str(40, u.data(), u.size() + 1);
    str(41, u.encoded_url());
    str(42, u.scheme());
    str(43, u.encoded_authority());
    str(44, u.encoded_path());
    str(45, u.query_part());
    str(46, u.fragment_part());
    verif_int(47, static_cast<int>(u.host_type()));
    verif_int(48, static_cast<long>(u.params().size()));
    verif_int(49, static_cast<long>(u.segments().size()));
    verif_int(50, u.capacity() >= u.size());
    auto const s = u.segments();
    for(auto it = s.begin(); it != s.end(); ++it)
        str(51, it->encoded_string());
}
static inline void seg_op(url& u, string_view a, int op)
{
    auto s = u.segments();
    auto it = s.begin();
    long k = verif_choose(8);
    while(k-- > 0)
    {
        if(it == s.end())
            return;
        ++it;
    }
    auto last = it;
    if(op == 3)
    {
        k = verif_choose(8);
        while(k-- > 0)
        {
            if(last == s.end())
                return;
            ++last;
        }
    }
    if((op == 2 || op > 3) && it == s.end())
        return;
    verif_int(31, index(s, it));
    verif_int(32, index(s, last));
    verif_int(36, static_cast<int>(u.host_type()));
    verif_int(37, static_cast<long>(u.params().size()));
    int threw = 0;
    auto r = it;
    try
    {
        switch(op)
        {
        case 0: r = s.insert_encoded(it, a); break;
        case 1: r = s.insert(it, a); break;
        case 2: r = s.erase(it); break;
        case 3: r = s.erase(it, last); break;
        case 4: r = s.replace_encoded(it, a); break;
        case 5: r = s.replace(it, a); break;
        }
    }
    catch(...)
    {
        threw = 1;
    }
    verif_int(33, threw);
    all(u);
    if(threw)
        return;
    verif_int(34, index(s, r));
    if(r != s.end())
        str(35, r->encoded_string());
}
extern "C" {
void h_segop(const char* p, std::size_t n, const char* q, std::size_t m, int op)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    seg_op(u, string_view(q, m), op);
}
// spare capacity
void h_segop2(const char* p, std::size_t n, const char* q, std::size_t m, int op)
{
    url u;
    u.set_encoded_url(string_view(p, n));
    u.set_fragment_part(string_view());
    seg_op(u, string_view(q, m), op);
}
// a URL that never held a string
void h_segop0(const char* q, std::size_t m, int op)
{
    url u;
    seg_op(u, string_view(q, m), op);
}
}
