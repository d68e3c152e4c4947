// concrete harness for C01, C02, C03: real security.cpp on a real scratch directory
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <unordered_map>
#include "common.hpp"
#include "rmw_dds_common/security.hpp"

struct Attr {const char * name; const char * p11; const char * pem;};
static const Attr ATTRS[] = {
  {"IDENTITY_CA", "identity_ca.cert.p11", "identity_ca.cert.pem"},
  {"CERTIFICATE", "cert.p11", "cert.pem"},
  {"PRIVATE_KEY", "key.p11", "key.pem"},
  {"PERMISSIONS_CA", "permissions_ca.cert.p11", "permissions_ca.cert.pem"},
  {"GOVERNANCE", "governance.p11", "governance.p7s"},
  {"PERMISSIONS", "permissions.p11", "permissions.p7s"},
};
static std::string top, prop;

static void put(const std::string & f, const std::string & text)
{
  std::ofstream(f, std::ios::binary) << text;
}

static std::string place(Rng & r, const std::string & f, bool p11, bool mostly_good)
{
  static const std::vector<std::string> texts{
    "pkcs11:abc", "  \n\tpkcs11:x=1;y=2 trailing words\nmore", "pkcs11:", "pkcs11", "", "   \n",
    "xpkcs11:abc", "PKCS11:abc", "file pkcs11:abc", "pkcs11 :abc", "\npkcs11:object=a%20b\n",
    "pkcs11:" + std::string(9000, 'k'), "#pkcs11:abc", "\vpkcs11:v\f rest", "pkcs11:a:pkcs11:b"};
  int k = static_cast<int>(r.below(10));
  if (mostly_good && r.coin(7, 8)) {k = p11 ? 1 : 0;}
  switch (k) {
    case 0: case 1: case 2: {
        std::string t = p11 || r.coin() ? r.pick(texts) : "-----BEGIN";
        put(f, t);
        return t.size() > 50 ? "regular(long)" : "regular(\"" + t + "\")";
      }
    case 3: ::mkdir(f.c_str(), 0755); return "directory";
    case 4: put(f + ".real", p11 ? "pkcs11:via-link" : "x");
      (void)!::symlink((f + ".real").c_str(), f.c_str()); return "symlink";
    case 5: (void)!::symlink((top + "/nowhere").c_str(), f.c_str()); return "dangling";
    case 6: (void)!::symlink(f.c_str(), f.c_str()); return "symlink loop";
    case 7: if (!p11) {::mkfifo(f.c_str(), 0644); return "fifo";} return "absent";
    default: return "absent";
  }
}

static bool regular(const std::string & f)
{
  struct stat s;
  return ::stat(f.c_str(), &s) == 0 && S_ISREG(s.st_mode);
}

static bool token(const std::string & f, std::string & out)
{
  FILE * h = ::fopen(f.c_str(), "rb");
  if (!h) {return false;}
  std::string all;
  char b[4096];
  size_t n;
  while ((n = ::fread(b, 1, sizeof(b), h)) > 0) {all.append(b, n);}
  ::fclose(h);
  size_t i = all.find_first_not_of(" \t\n\v\f\r");
  if (i == std::string::npos) {return false;}
  out = all.substr(i, all.find_first_of(" \t\n\v\f\r", i) - i);
  return true;
}

static std::string show(const std::map<std::string, std::string> & m)
{
  std::string s = "{";
  for (auto & e : m) {
    s += e.first + "=" + (e.second.size() > 120 ? e.second.substr(0, 40) + "..." : e.second) + ", ";
  }
  return s + "}";
}

static void one(Rng & r, uint64_t n)
{
  std::string dir = top + "/d" + std::to_string(n);
  std::filesystem::create_directory(dir);
  struct Clean {std::string d; ~Clean() {std::error_code e; std::filesystem::remove_all(d, e);}} clean{dir};
  std::string desc;
  bool good = r.coin(3, 4);
  for (auto & a : ATTRS) {
    desc += std::string(a.pem) + ":" + place(r, dir + "/" + a.pem, false, good) + " ";
    if (r.coin(2, 3)) {
      desc += std::string(a.p11) + ":" + place(r, dir + "/" + a.p11, true, r.coin()) + " ";
    }
  }
  desc += "crl.pem:" + place(r, dir + "/crl.pem", false, r.coin()) + " ";
  if (r.coin(1, 4)) {
    // exactly one attribute broken
    auto & a = ATTRS[r.below(6)];
    std::error_code e;
    std::filesystem::remove_all(dir + "/" + a.pem, e);
    desc += std::string("removed:") + a.pem + " ";
  }
  std::string root = dir;
  switch (r.below(8)) {
    case 0: root += "/"; break;
    case 1: root += "//"; break;
    case 2: root = top + "//d" + std::to_string(n); break;
    case 3: root = dir + "/../d" + std::to_string(n); break;
    case 4: root = dir + "/no-such-dir"; break;
    case 5: if (r.coin(1, 6)) {root = std::string(5000, 'a');} break;
    default: break;
  }
  if (r.coin(1, 10)) {
    root = r.coin() ? "" : ".";
    if (::chdir(dir.c_str()) != 0) {return;}
  }
  struct Back {~Back() {(void)!::chdir(top.c_str());}} back;
  static const std::vector<std::string> prefixes{"file://", "", "data:", "pkcs11:", "prefix with space "};
  std::string prefix = r.pick(prefixes);
  bool overload4 = r.coin(3, 4), sup = overload4 && r.coin(2, 3);
  std::unordered_map<std::string, std::string> result;
  std::map<std::string, std::string> before;
  static const std::vector<std::string> keys{"IDENTITY_CA", "CERTIFICATE", "PRIVATE_KEY",
    "PERMISSIONS_CA", "GOVERNANCE", "PERMISSIONS", "CRL", "OTHER", "", "cert.pem"};
  for (auto & k : keys) {
    if (r.coin(1, 3)) {before[k] = result[k] = "old-" + k;}
  }
  std::map<std::string, std::string> want = before;
  bool ok = true;
  auto path = [&](const char * f) {return root.empty() ? std::string(f) : root + "/" + f;};
  auto uri = [&](const char * f) {
      return prefix + (std::filesystem::path(root) / f).generic_string();
    };
  for (int i = 0; i < 6; ++i) {
    std::string t;
    if (i < 4 && sup && token(path(ATTRS[i].p11), t) && t.compare(0, 7, "pkcs11:") == 0) {
      want[ATTRS[i].name] = t;
    } else if (regular(path(ATTRS[i].pem))) {
      want[ATTRS[i].name] = uri(ATTRS[i].pem);
    } else {
      ok = false;
    }
  }
  if (!ok) {want.clear();} else if (regular(path("crl.pem"))) {want["CRL"] = uri("crl.pem");}
  bool got;
  try {
    got = overload4 ? rmw_dds_common::get_security_files(sup, prefix, root, result) :
      rmw_dds_common::get_security_files(prefix, root, result);
  } catch (const std::exception & e) {
    if (prop != "C01") {return;}
    throw Fail{std::string("throws ") + e.what() + " with root=" + root + " files: " + desc};
  }
  std::map<std::string, std::string> have(result.begin(), result.end());
  std::ostringstream ctx;
  ctx << "get_security_files(" << (overload4 ? sup ? "true, " : "false, " : "") << "\"" << prefix <<
    "\", \"" << root.substr(0, 200) << "\") with files: " << desc << " returned " << got << " " <<
    show(have) << ", expected " << ok << " " << show(want) << ", map before: " << show(before);
  if (prop == "C01") {
    REQUIRE(got == ok, ctx.str());
    if (ok) {
      for (auto & a : ATTRS) {REQUIRE(have.count(a.name), a.name << " missing: " << ctx.str());}
    } else {
      REQUIRE(have.empty(), "not empty: " << ctx.str());
    }
  } else if (got && ok) {
    for (auto & a : ATTRS) {
      if (prop == "C02") {
        REQUIRE(have.count(a.name) && have[a.name] == want[a.name], a.name << ": " << ctx.str());
      }
      have.erase(a.name);
      want.erase(a.name);
    }
    if (prop == "C03") {REQUIRE(have == want, ctx.str());}
  } else if (prop == "C03") {
    REQUIRE(!ok, "success prevented: " << ctx.str());
  }
}

int main(int argc, char ** argv)
{
  std::string p = argc > 1 ? argv[1] : "C01";
  double budget = argc > 2 ? atof(argv[2]) : 2;
  uint64_t seed = argc > 3 ? strtoull(argv[3], nullptr, 10) : 1;
  char t[] = "/tmp/secharnessXXXXXX";
  if (!::mkdtemp(t)) {return 3;}
  top = t;
  prop = p;
  (void)!::chdir(t);
  int rc = drive(p.c_str(), budget, seed, one);
  (void)!::chdir("/");
  std::error_code e;
  std::filesystem::remove_all(top, e);
  return rc;
}
