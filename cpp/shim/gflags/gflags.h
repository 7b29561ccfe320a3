// A stand-in for the parts of gflags the runtime uses: --name=value, --name value, one or two dashes.
#ifndef SHIM_GFLAGS_GFLAGS_H_
#define SHIM_GFLAGS_GFLAGS_H_
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <string>

namespace gflags {
inline std::map<std::string, std::function<bool(const std::string*)>>& ShimFlags() {
  static std::map<std::string, std::function<bool(const std::string*)>> flags;
  return flags;
}
struct ShimRegister {
  ShimRegister(const char* name, std::string* target) {
    ShimFlags()[name] = [target](const std::string* v) { return v ? (*target = *v, true) : false; };
  }
  ShimRegister(const char* name, bool* target) {
    ShimFlags()[name] = [target](const std::string* v) { return *target = !v || *v == "true" || *v == "1", true; };
  }
  ShimRegister(const char* name, int32_t* target) {
    ShimFlags()[name] = [target](const std::string* v) { return v ? (*target = std::atoi(v->c_str()), true) : false; };
  }
};
inline void SetUsageMessage(const std::string&) {}
inline void SetVersionString(const std::string&) {}
inline uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool) {
  for (int i = 1; i < *argc; ++i) {
    std::string word = (*argv)[i];
    if (word.size() < 2 || word[0] != '-') continue;
    word.erase(0, word[1] == '-' ? 2 : 1);
    std::string value;
    const size_t at = word.find('=');
    const std::string* given = nullptr;
    if (at != std::string::npos) {
      value = word.substr(at + 1);
      word.erase(at);
      given = &value;
    }
    auto flag = ShimFlags().find(word);
    if (flag == ShimFlags().end()) {
      std::cerr << "ERROR: unknown command line flag '" << word << "'" << std::endl;
      std::exit(1);
    }
    if (!flag->second(given)) {
      if (++i >= *argc) {
        std::cerr << "ERROR: flag '" << word << "' is missing its argument" << std::endl;
        std::exit(1);
      }
      value = (*argv)[i];
      flag->second(&value);
    }
  }
  return 1;
}
inline void ShutDownCommandLineFlags() {}
}  // namespace gflags
namespace google {
using gflags::ParseCommandLineFlags;
using gflags::SetUsageMessage;
using gflags::ShutDownCommandLineFlags;
}  // namespace google
#define SHIM_DEFINE(type, name, value, help) \
  type FLAGS_##name = value;                 \
  static ::gflags::ShimRegister shim_register_##name(#name, &FLAGS_##name)
#define DEFINE_string(name, value, help) SHIM_DEFINE(std::string, name, value, help)
#define DEFINE_bool(name, value, help) SHIM_DEFINE(bool, name, value, help)
#define DEFINE_int32(name, value, help) SHIM_DEFINE(int32_t, name, value, help)
#define DECLARE_string(name) extern std::string FLAGS_##name
#define DECLARE_bool(name) extern bool FLAGS_##name
#define DECLARE_int32(name) extern int32_t FLAGS_##name
#endif  // SHIM_GFLAGS_GFLAGS_H_
