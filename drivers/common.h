// Shared by the concrete drivers: the library's headers with their members
// visible (the drivers compare states), a random source, failure reporting.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <byteswap.h>
#include <unistd.h>
#include <boost/any.hpp>
#include <boost/asio.hpp>
#include <boost/thread.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include "dbus.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_messageprotocol.h"
#include "dbus_validation.h"
#include "dbus_utils.h"
#include "dbus_platform.h"

static std::mt19937_64 rng;
static long cases = 0;
static std::string prop;
static double t_end = 0;
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static bool more() { return now() < t_end; }
static uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
static bool one_in(unsigned n) { return rnd(n) == 0; }

static std::string hex(const std::string& s)
{
    std::string r;
    char b[4];
    for (unsigned char c : s) {
        snprintf(b, sizeof b, "%02x", c);
        r += b;
    }
    return r;
}
static std::string shown(const std::string& s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s)
        if (c >= 32 && c < 127 && c != '\\')
            r += (char)c;
        else {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    return "\"" + r + "\"";
}
[[noreturn]] static void fail(const std::string& what)
{
    printf("FAILING INPUT (%s): %s\n", prop.c_str(), what.c_str());
    fflush(stdout);
    _exit(1);
}
static void check(bool ok, const std::string& what)
{
    if (!ok)
        fail(what);
}
static std::string g_context;
static void start(int argc, char** argv)
{
    prop = argc > 1 ? argv[1] : "";
    rng.seed(argc > 2 ? atoll(argv[2]) : 1);
    t_end = now() + (argc > 3 ? atof(argv[3]) : 10);
    DBus::Log::setLevel(99);
    std::set_terminate([] {
        printf("FAILING INPUT (%s): an exception escapes: %s\n", prop.c_str(), g_context.c_str());
        fflush(stdout);
        _exit(1);
    });
}
static int finish()
{
    printf("CASES %ld\n", cases);
    fflush(stdout);
    _exit(0);
}
static uint64_t interesting()
{
    static const uint64_t v[] = { 0, 1, 2, 7, 8, 9, 10, 99, 100, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536,
        0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull };
    switch (rnd(3)) {
    case 0:
        return v[rnd(sizeof v / sizeof *v)];
    case 1:
        return rng() >> rnd(64);
    default:
        return rng();
    }
}
