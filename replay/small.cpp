// concrete harness for C04, C05, C06: real time_utils.cpp and gid_utils.cpp
#include "common.hpp"
#include "rmw/types.h"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/time_utils.hpp"
#include "rmw_dds_common/msg/gid.hpp"

typedef unsigned __int128 u128;
static std::string show(u128 v)
{
  std::string s;
  do {s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10;} while (v);
  return s;
}

static uint64_t value(Rng & r)
{
  static const std::vector<uint64_t> k{0, 1, 999999999, 1000000000, 1000000001, 2147483646,
    2147483647, 2147483648ull, 2147483649ull, 4294967295ull, 4294967296ull, INT64_MAX,
    UINT64_MAX, UINT64_MAX - 1, UINT64_MAX / 1000000000ull, 2147483647ull * 1000000000ull,
    2147483648ull * 1000000000ull, 2147483648ull * 1000000000ull - 1, 18446744073000000000ull};
  switch (r.below(4)) {
    case 0: return r.pick(k);
    case 1: return r.pick(k) + r.below(7) - 3;
    case 2: return r.next() >> r.below(64);
    default: return r.next();
  }
}

static void c04(Rng & r, uint64_t)
{
  rmw_time_t t;
  t.sec = value(r);
  t.nsec = value(r);
  if (r.coin(1, 4)) {
    // totals around the limit
    t.sec = 2147483647ull - r.below(20);
    t.nsec = r.below(25) * 1000000000ull + r.below(3) - 1;
  }
  rmw_time_t o = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  u128 in = static_cast<u128>(t.sec) * 1000000000u + t.nsec;
  u128 mx = static_cast<u128>(2147483647u) * 1000000000u + 999999999u;
  u128 want = in <= mx ? in : mx;
  u128 got = static_cast<u128>(o.sec) * 1000000000u + o.nsec;
  REQUIRE(o.sec <= 2147483647u && o.nsec < 1000000000u && got == want,
    "clamp(" << t.sec << "s, " << t.nsec << "ns) = " << o.sec << "s, " << o.nsec <<
    "ns, expected total " << show(want));
}

static std::string text(const uint8_t * d)
{
  char b[40];
  for (int i = 0; i < 16; ++i) {snprintf(b + 2 * i, 3, "%02x", d[i]);}
  return b;
}

static rmw_gid_t gid(Rng & r, const rmw_gid_t * base)
{
  static const char ids[][4] = {"a", "b", "a"};
  rmw_gid_t g;
  g.implementation_identifier = r.coin(1, 3) ? nullptr : ids[r.below(3)];
  for (auto & b : g.data) {
    static const std::vector<uint8_t> k{0, 1, 0x7f, 0x80, 0xff};
    b = r.coin() ? r.pick(k) : static_cast<uint8_t>(r.next());
  }
  if (base && r.coin(2, 3)) {
    memcpy(g.data, base->data, 16);
    for (uint64_t n = r.below(3); n--; ) {
      g.data[r.coin() ? (r.coin() ? 0 : 15) : r.below(16)] = static_cast<uint8_t>(
        r.coin() ? r.next() : r.coin() ? 0x80 : 0x7f);
    }
  }
  return g;
}

static int lex(const rmw_gid_t & a, const rmw_gid_t & b)
{
  for (int i = 0; i < 16; ++i) {
    if (a.data[i] != b.data[i]) {return a.data[i] < b.data[i] ? -1 : 1;}
  }
  return 0;
}

static void c05(Rng & r, uint64_t)
{
  using rmw_dds_common::operator==;
  rmw_dds_common::Compare_rmw_gid_t less;
  rmw_gid_t a = gid(r, nullptr), b = gid(r, &a);
  int c = lex(a, b);
  REQUIRE(less(a, b) == (c < 0), "less(" << text(a.data) << ", " << text(b.data) << ") is wrong");
  REQUIRE(less(b, a) == (c > 0), "less(" << text(b.data) << ", " << text(a.data) << ") is wrong");
  REQUIRE(!less(a, a), "less(a, a) for " << text(a.data));
  REQUIRE((a == b) == (c == 0), text(a.data) << " == " << text(b.data) << " is wrong (identifiers " <<
    static_cast<const void *>(a.implementation_identifier) << ", " <<
    static_cast<const void *>(b.implementation_identifier) << ")");
}

static void c06(Rng & r, uint64_t)
{
  struct {uint8_t pad[16]; rmw_gid_t g; uint8_t pad2[16];} h, h0;
  struct {uint8_t pad[16]; rmw_dds_common::msg::Gid m; uint8_t pad2[16];} m, m0;
  for (size_t i = 0; i < sizeof(h); ++i) {reinterpret_cast<uint8_t *>(&h)[i] = r.next();}
  for (size_t i = 0; i < sizeof(m); ++i) {reinterpret_cast<uint8_t *>(&m)[i] = r.next();}
  memcpy(&h0, &h, sizeof(h));
  memcpy(static_cast<void *>(&m0), &m, sizeof(m));
  rmw_gid_t g = gid(r, nullptr), g0;
  memcpy(&g0, &g, sizeof(g));
  rmw_dds_common::convert_gid_to_msg(&g, &m.m);
  REQUIRE(memcmp(&g, &g0, sizeof(g)) == 0, "convert_gid_to_msg changes its source");
  REQUIRE(memcmp(&m.m, g.data, 16) == 0, "message of " << text(g.data) << " is " <<
    text(reinterpret_cast<uint8_t *>(&m.m)));
  memcpy(static_cast<void *>(&m0.m), g.data, 16);
  REQUIRE(memcmp(&m, &m0, sizeof(m)) == 0, "convert_gid_to_msg writes outside the message");
  rmw_dds_common::convert_msg_to_gid(&m.m, &h.g);
  REQUIRE(memcmp(&m, &m0, sizeof(m)) == 0, "convert_msg_to_gid changes its source");
  REQUIRE(memcmp(h.g.data, g.data, 16) == 0, "round trip of " << text(g.data) << " gives " <<
    text(h.g.data));
  memcpy(h0.g.data, g.data, 16);
  REQUIRE(memcmp(&h, &h0, sizeof(h)) == 0,
    "convert_msg_to_gid writes outside the destination's 16 bytes");
}

int main(int argc, char ** argv)
{
  std::string p = argc > 1 ? argv[1] : "C04";
  double budget = argc > 2 ? atof(argv[2]) : 2;
  uint64_t seed = argc > 3 ? strtoull(argv[3], nullptr, 10) : 1;
  return drive(p.c_str(), budget, seed, p == "C04" ? c04 : p == "C05" ? c05 : c06, 20000000);
}
