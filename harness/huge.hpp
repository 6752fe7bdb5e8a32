// A stream of any length that stores only the blocks that are not all zero.
#pragma once
#include <cstring>
#include <istream>
#include <ostream>
#include <streambuf>
#include <unordered_map>
#include <vector>

struct HugeBuf : std::streambuf
{
    static const uint64_t B = 1 << 16;
    std::unordered_map<uint64_t, std::vector<char>> blocks;
    uint64_t size{0}, put{0}, get{0};
    char one{};

    static bool zero(const char *p, uint64_t n) { return n == 0 || (*p == 0 && (n == 1 || !memcmp(p, p + 1, n - 1))); }
    void store(uint64_t at, const char *p, uint64_t n)
    {
        while (n)
        {
            uint64_t b = at / B, o = at % B, m = std::min(n, B - o);
            auto it = blocks.find(b);
            if (it == blocks.end() && !zero(p, m))
                it = blocks.emplace(b, std::vector<char>(B)).first;
            if (it != blocks.end())
                memcpy(it->second.data() + o, p, m);
            at += m, p += m, n -= m;
        }
        size = std::max(size, at);
    }
    void load(uint64_t at, char *p, uint64_t n) const
    {
        while (n)
        {
            uint64_t b = at / B, o = at % B, m = std::min(n, B - o);
            auto it = blocks.find(b);
            if (it == blocks.end())
                memset(p, 0, m);
            else
                memcpy(p, it->second.data() + o, m);
            at += m, p += m, n -= m;
        }
    }
    std::string bytes(uint64_t at, uint64_t n) const
    {
        std::string s(at < size ? std::min(n, size - at) : 0, 0);
        load(at, &s[0], s.size());
        return s;
    }
    template <typename T> T at(uint64_t p) const
    {
        T t{};
        load(p, (char *)&t, sizeof t);
        return t;
    }
    template <typename T> void set(uint64_t p, T t) { store(p, (const char *)&t, sizeof t); }

    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        store(put, s, n);
        put += n;
        return n;
    }
    int overflow(int c) override
    {
        char x = (char)c;
        store(put++, &x, 1);
        return c & 255;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        std::streamsize done = 0;
        if (n > 0 && gptr() < egptr()) // the byte an underflow has put there
        {
            *s++ = *gptr();
            gbump(1);
            n--, done++, get++;
        }
        setg(nullptr, nullptr, nullptr);
        uint64_t m = get < size ? std::min((uint64_t)n, size - get) : 0;
        load(get, s, m);
        get += m;
        return done + m;
    }
    int underflow() override
    {
        if (gptr() && gptr() == egptr())
            get++, setg(nullptr, nullptr, nullptr);
        if (get >= size)
            return EOF;
        load(get, &one, 1);
        setg(&one, &one, &one + 1);
        return (unsigned char)one;
    }
    std::streampos seekoff(std::streamoff o, std::ios::seekdir d, std::ios::openmode m) override
    {
        uint64_t here = m & std::ios::in ? get + (gptr() && gptr() == egptr() ? 1 : 0) : put;
        int64_t to = o + (int64_t)(d == std::ios::beg ? 0 : d == std::ios::cur ? here : size);
        if (to < 0)
            return std::streampos(-1);
        if (m & std::ios::in)
            get = to, setg(nullptr, nullptr, nullptr);
        if (m & std::ios::out)
            put = to;
        return to;
    }
    std::streampos seekpos(std::streampos p, std::ios::openmode m) override { return seekoff(std::streamoff(p), std::ios::beg, m); }
};
