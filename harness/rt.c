/* C library functions the analysis looks through; analysed, never executed */
typedef __SIZE_TYPE__ size_t;
void* memchr(const void* s, int c, size_t n)
{
    const char* p = (const char*)s;
    const char* e = p + n;
    for(; p != e; ++p)
        if(*p == (char)c)
            return (void*)p;
    return 0;
}
void* memrchr(const void* s, int c, size_t n)
{
    const char* b = (const char*)s;
    const char* p = b + n;
    while(p != b)
        if(*--p == (char)c)
            return (void*)p;
    return 0;
}
char* strchr(const char* p, int c)
{
    for(;; ++p)
    {
        if(*p == (char)c)
            return (char*)p;
        if(!*p)
            return 0;
    }
}
