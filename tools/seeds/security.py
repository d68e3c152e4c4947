HEAD = r'''
#include <sys/stat.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <unordered_map>
#include "rmw_dds_common/security.hpp"
using rmw_dds_common::get_security_files;
static std::string root = "enclave";
static void put(const std::string & n, const std::string & t) {std::ofstream(root + "/" + n) << t;}
static void all()
{
  ::mkdir(root.c_str(), 0755);
  for (auto n : {"identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "governance.p7s",
    "permissions.p7s"}) {put(n, "x");}
}
#define CHECK(c) do {if (!(c)) {std::printf("FAILED: %s\n", #c); return 1;}} while (0)
'''
SEEDS = [
 dict(id='S01-stale-entries-on-failure', property='C01', srcs=['security'],
  needs='a failing lookup into a result map that already holds a key which is not one of the six attributes',
  breaks='on failure the result map is not emptied: foreign and CRL entries survive',
  edits=[('src/security.cpp', '      result.clear();\n', '      for (const auto & required : required_files) {\n        result.erase(required.first);\n      }\n')],
  demo=HEAD + r'''
int main() {
  all();
  ::unlink((root + "/key.pem").c_str());
  std::unordered_map<std::string, std::string> r{{"CRL", "file://old/crl.pem"}, {"KEY", "x"}};
  CHECK(!get_security_files("", root, r));
  CHECK(r.empty());
  return 0;
}
'''),
 dict(id='S02-token-not-first', property='C02', srcs=['security'],
  needs='a .p11 file whose first token is not a PKCS#11 URI but whose second one is',
  breaks='the value is a later token of the file instead of the .pem fallback',
  edits=[('src/security.cpp', '  if (!(ifs >> result)) {\n    return false;\n  }\n  if (result.find(p11_prefix) != 0) {\n    return false;\n  }\n\n  return true;',
   '  while (ifs >> result) {\n    if (result.find(p11_prefix) == 0) {\n      return true;\n    }\n  }\n\n  return false;')],
  demo=HEAD + r'''
int main() {
  all();
  put("cert.p11", "disabled: pkcs11:object=cert\n");
  std::unordered_map<std::string, std::string> r;
  CHECK(get_security_files(true, "file://", root, r));
  CHECK(r["CERTIFICATE"] == "file://" + root + "/cert.pem");
  return 0;
}
'''),
 dict(id='S03-stale-crl', property='C03', srcs=['security'],
  needs='a result map that already holds a CRL entry (reused between two lookups) while crl.pem exists',
  breaks='the CRL of an earlier lookup is kept instead of the one found',
  edits=[('src/security.cpp', '      result[el.first] = prefix + full_path.generic_string();', '      result.emplace(el.first, prefix + full_path.generic_string());')],
  demo=HEAD + r'''
int main() {
  all();
  put("crl.pem", "x");
  std::unordered_map<std::string, std::string> r{{"CRL", "file://other/crl.pem"}};
  CHECK(get_security_files("file://", root, r));
  CHECK(r["CRL"] == "file://" + root + "/crl.pem");
  return 0;
}
'''),
 dict(id='S04-p11-directory', property='C01', srcs=['security'],
  needs='a .p11 name that exists but cannot be read as a file (a directory) next to a good .pem file',
  breaks='the attribute is taken as unusable instead of falling back, so the lookup fails',
  edits=[('src/security.cpp', '''        processed = true;
        break;
      }
    }''', '''        processed = true;
        break;
      }
      std::error_code ec;
      if (supports_pkcs11 && std::filesystem::is_directory(full_path, ec)) {
        break;
      }
    }''')],
  demo=HEAD + r'''
int main() {
  all();
  ::mkdir((root + "/key.p11").c_str(), 0755);
  std::unordered_map<std::string, std::string> r;
  CHECK(get_security_files(true, "file://", root, r));
  CHECK(r["PRIVATE_KEY"] == "file://" + root + "/key.pem");
  return 0;
}
'''),
 dict(id='S05-prefix-on-token', property='C02', srcs=['security'],
  needs='PKCS#11 support, a token that is only "pkcs11:" followed by nothing else and an attribute with a regular .pem file',
  breaks='a bare "pkcs11:" token is rejected although it begins with pkcs11:',
  edits=[('src/security.cpp', '  if (result.find(p11_prefix) != 0) {', '  if (result.size() <= p11_prefix.size() || result.find(p11_prefix) != 0) {')],
  demo=HEAD + r'''
int main() {
  all();
  put("identity_ca.cert.p11", "\n pkcs11:\n");
  std::unordered_map<std::string, std::string> r;
  CHECK(get_security_files(true, "file://", root, r));
  CHECK(r["IDENTITY_CA"] == "pkcs11:");
  return 0;
}
'''),
]
