#ifndef STUB_RMW_KV
#define STUB_RMW_KV
#include <cctype>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace rmw
{
namespace impl
{
namespace cpp
{
#ifdef CXXVC_PARSE
// under the verifier this dependency is known by its (assumed) contract only
std::map<std::string, std::vector<uint8_t>> parse_key_value(std::vector<uint8_t> kv);
#else
inline std::map<std::string, std::vector<uint8_t>>
parse_key_value(std::vector<uint8_t> kv)
{
  std::map<std::string, std::vector<uint8_t>> m;
  bool keyfound = false;
  std::string key;
  std::vector<uint8_t> value;
  uint8_t prev = '\0';
  if (kv.size() == 0) {
    goto not_valid;
  }
  for (uint8_t u8 : kv) {
    if (keyfound) {
      if ((u8 == ';') && (prev != ';')) {
        prev = u8;
        continue;
      } else if ((u8 != ';') && (prev == ';')) {
        if (value.size() == 0) {
          goto not_valid;
        }
        m[key] = value;
        key.clear();
        value.clear();
        keyfound = false;
      } else {
        value.push_back(u8);
      }
    }
    if (!keyfound) {
      if (u8 == '=') {
        if (key.size() == 0) {
          goto not_valid;
        }
        keyfound = true;
      } else if (isalnum(u8)) {
        key.push_back(u8);
      } else if ((u8 == '\0') && (key.size() == 0) && (m.size() > 0)) {
        break;
      } else if ((prev != ';') || (key.size() > 0)) {
        goto not_valid;
      }
    }
    prev = u8;
  }
  if (keyfound) {
    if (value.size() == 0) {
      goto not_valid;
    }
    m[key] = value;
  } else if (key.size() > 0) {
    goto not_valid;
  }
  return m;
not_valid:
  return std::map<std::string, std::vector<uint8_t>>();
}
#endif
}
}
}
#endif
