// Program a replay drives: calls of the entry points come over a pipe; draws are asked for.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <unistd.h>
#include <vector>

static int in_fd, out_fd;

static void take(void *to, size_t n)
{
    auto p = static_cast<char *>(to);
    while (n > 0)
    {
        auto k = read(in_fd, p, n);
        if (k <= 0)
            _exit(0);
        p += k;
        n -= size_t(k);
    }
}

static void send(const void *from, size_t n)
{
    auto p = static_cast<const char *>(from);
    while (n > 0)
    {
        auto k = write(out_fd, p, n);
        if (k <= 0)
            _exit(0);
        p += k;
        n -= size_t(k);
    }
}

template <class T> static T take()
{
    T v;
    take(&v, sizeof v);
    return v;
}

template <class A, class B> static void ask(char kind, A a, B b)
{
    char head[2] = {'D', kind};
    send(head, 2);
    send(&a, 8);
    send(&b, 8);
}

extern "C"
{
    float vp_draw_real(float low, float high)
    {
        ask('r', double(low), double(high));
        return float(take<double>());
    }

    int64_t vp_draw_order(int64_t n)
    {
        ask('o', n, n);
        return take<int64_t>();
    }

    int64_t vp_draw_int(int64_t low, int64_t high)
    {
        ask('i', low, high);
        return take<int64_t>();
    }

    int64_t vp_draw_binomial(int64_t n, double p)
    {
        ask('b', n, p);
        return take<int64_t>();
    }

    [[noreturn]] void vp_fatal(const char *message)
    {
        fprintf(stderr, "fatal error: %s\n", message);
        abort();
    }
}

// Integers and floating point numbers travel in separate registers, so one signature serves all.
using Any = int64_t (*)(float, float, float, float, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t,
                        int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t,
                        int64_t, int64_t, int64_t, int64_t, int64_t);

int main(int, char **argv)
{
    in_fd = atoi(argv[1]);
    out_fd = atoi(argv[2]);
    send("ready", 5);
    while (true)
    {
        std::string name(take<uint32_t>(), ' ');
        take(name.data(), name.size());
        int64_t i[24] = {};
        float f[4] = {};
        size_t ni = 0, nf = 0;
        std::vector<std::pair<char *, uint64_t>> arrays;
        std::vector<char *> texts;
        for (auto left = take<uint32_t>(); left > 0; --left)
        {
            auto kind = take<char>();
            if (kind == 'i')
                i[ni++] = take<int64_t>();
            else if (kind == 'f')
                f[nf++] = take<float>();
            else
            {
                auto size = take<uint64_t>();
                auto data = static_cast<char *>(malloc(size));
                take(data, size);
                i[ni++] = reinterpret_cast<int64_t>(data);
                if (kind == 'a')
                    arrays.emplace_back(data, size);
                else
                    texts.push_back(data);
            }
        }
        auto entry = reinterpret_cast<Any>(dlsym(RTLD_DEFAULT, name.c_str()));
        if (!entry)
            _exit(3);
        auto result = entry(f[0], f[1], f[2], f[3], i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12],
                            i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]);
        send("R", 1);
        send(&result, 8);
        for (auto &a : arrays)
        {
            send(a.first, a.second);
            free(a.first);
        }
        for (auto t : texts)
            free(t);
    }
}
