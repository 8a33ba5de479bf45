// Entry points whose code is analysed (never executed).  verif_* are modelled by the analysis.
#include <cstdint>
#include <boost/url/static_pool.hpp>
using namespace boost::urls;
extern "C" {
void verif_ptr(int tag, const void* p);
void verif_int(int tag, long v);
}
template<class T> using al = basic_static_pool::allocator_type<T>;
template<class T> static inline bool get(basic_static_pool& pool, std::size_t n, int tag)
{
    al<T> a(pool.allocator());
    try
    {
        verif_ptr(tag, a.allocate(n));
        return true;
    }
    catch(...)
    {
        verif_int(99, tag);
        return false;
    }
}
// three blocks, one after the other
template<class A, class B, class D> static inline void three(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c)
{
    basic_static_pool pool(p, n);
    get<A>(pool, a, 0);
    get<B>(pool, b, 1);
    get<D>(pool, c, 2);
}
struct alignas(16) big { char x[16]; };
extern "C" {
void h_ccc(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { three<char, char, char>(p, n, a, b, c); }
void h_cic(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { three<char, std::int32_t, char>(p, n, a, b, c); }
void h_sds(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { three<std::int16_t, double, std::int16_t>(p, n, a, b, c); }
void h_bcb(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { three<big, char, big>(p, n, a, b, c); }
}
// two blocks, one of them released, a third block: it may only use what is free
template<class A, class B, class D> static inline void reuse(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c, bool first)
{
    basic_static_pool pool(p, n);
    al<A> x(pool.allocator());
    al<B> y(pool.allocator());
    A* q = nullptr;
    B* r = nullptr;
    try
    {
        q = x.allocate(a);
        verif_ptr(0, q);
        r = y.allocate(b);
        verif_ptr(1, r);
    }
    catch(...)
    {
        verif_int(98, 0);
        return;
    }
    if(first)
    {
        x.deallocate(q, a);
        verif_int(97, 0);
    }
    else
    {
        y.deallocate(r, b);
        verif_int(97, 1);
    }
    get<D>(pool, c, 2);
}
extern "C" {
void h_0cic(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { reuse<char, std::int32_t, char>(p, n, a, b, c, true); }
void h_1cic(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { reuse<char, std::int32_t, char>(p, n, a, b, c, false); }
void h_0ccc(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { reuse<char, char, char>(p, n, a, b, c, true); }
void h_1dbs(char* p, std::size_t n, std::size_t a, std::size_t b, std::size_t c) { reuse<double, big, std::int16_t>(p, n, a, b, c, false); }
}
