// Runs the C++ runtime on requests from stdin. A request is "<op> <number of arguments>\n" followed by "<length>\n<bytes>" per argument; the
// answer has the form "<number of items>\n" followed by items in the same framing, the first of which says how the call ended.
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "processor/wetext_processor.h"
#include "processor/wetext_processor_c_api.h"
#include "processor/wetext_token_parser.h"
#include "utils/wetext_string.h"

#if defined(__SANITIZE_ADDRESS__)
#define HAS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAS_ASAN 1
#endif
#endif
#ifdef HAS_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated() { return 0; }
#endif

static bool read_item(std::string* out) {
  size_t n;
  if (std::scanf("%zu", &n) != 1 || std::getchar() != '\n') return false;
  out->resize(n);
  return std::fread(out->data(), 1, n, stdin) == n;
}

static void answer(const std::vector<std::string>& items) {
  std::printf("%zu\n", items.size());
  for (const auto& item : items) {
    std::printf("%zu\n", item.size());
    std::fwrite(item.data(), 1, item.size(), stdout);
  }
  std::fflush(stdout);
}

template <typename F>
static std::vector<std::string> guarded(F f) {
  try {
    return f();
  } catch (const std::invalid_argument& e) {
    return {"invalid_argument", e.what()};
  } catch (const std::exception& e) {
    return {"exception", e.what()};
  } catch (...) {
    return {"unknown exception"};
  }
}

using CCall = const char* (*)(WetextProcessorHandle, const char*);

static std::vector<std::string> c_call(CCall call, WetextProcessorHandle handle, const std::string& input) {
  const char* got = call(handle, input.c_str());
  if (!got) return {"null"};
  std::string text(got);
  wetext_free_string(got);
  return {"ok", text};
}

int main() {
  std::vector<WetextProcessorHandle> handles;
  std::vector<std::unique_ptr<wetext::Processor>> processors;
  std::vector<std::pair<std::string, std::string>> paths;
  std::vector<std::unique_ptr<wetext::TokenParser>> parsers;
  for (int type = 0; type < 6; ++type) parsers.push_back(std::make_unique<wetext::TokenParser>(static_cast<wetext::ParseType>(type)));
  char op[32];
  size_t count;
  while (std::scanf("%31s %zu", op, &count) == 2) {
    std::getchar();
    std::vector<std::string> args(count);
    for (auto& a : args)
      if (!read_item(&a)) return 3;
    const std::string name = op;
    answer(guarded([&]() -> std::vector<std::string> {
      if (name == "reorder") return {"ok", parsers.at(std::stoi(args.at(0)))->Reorder(args.at(1))};
      if (name == "reorder_fresh") {
        wetext::TokenParser parser(static_cast<wetext::ParseType>(std::stoi(args.at(0))));
        return {"ok", parser.Reorder(args.at(1))};
      }
      if (name == "string") {
        std::vector<std::string> out{"ok", std::to_string(wetext::UTF8StringLength(args.at(0))), wetext::Ltrim(args.at(0)), wetext::Rtrim(args.at(0)), wetext::Trim(args.at(0))};
        std::vector<std::string> chars{"stale"};
        wetext::SplitUTF8StringToChars(args.at(0), &chars);
        out.push_back(std::to_string(chars.size()));
        for (const auto& c : chars) out.push_back(c);
        if (!args.at(1).empty()) {
          std::vector<std::string> parts;
          wetext::Split(args.at(0), args.at(1), &parts);
          for (const auto& p : parts) out.push_back(p);
        }
        return out;
      }
      if (name == "open") {  // through the C API
        WetextProcessorHandle handle = wetext_create_processor(args.at(0).c_str(), args.at(1).c_str());
        if (!handle) return {"null"};
        handles.push_back(handle);
        return {"ok", std::to_string(handles.size() - 1)};
      }
      if (name == "open_null") {
        const bool first = wetext_create_processor(nullptr, args.at(0).c_str()) != nullptr;
        const bool second = wetext_create_processor(args.at(0).c_str(), nullptr) != nullptr;
        return {first || second ? "handle" : "null"};
      }
      if (name == "close") {
        WetextProcessorHandle& handle = handles.at(std::stoi(args.at(0)));
        wetext_destroy_processor(handle);
        handle = nullptr;
        return {"ok"};
      }
      if (name == "tag") return c_call(wetext_tag, handles.at(std::stoi(args.at(0))), args.at(1));
      if (name == "verbalize") return c_call(wetext_verbalize, handles.at(std::stoi(args.at(0))), args.at(1));
      if (name == "normalize") return c_call(wetext_normalize, handles.at(std::stoi(args.at(0))), args.at(1));
      if (name == "null_input") {
        WetextProcessorHandle handle = handles.at(std::stoi(args.at(0)));
        const bool any = wetext_tag(handle, nullptr) || wetext_verbalize(handle, nullptr) || wetext_normalize(handle, nullptr) || wetext_tag(nullptr, "x") || wetext_verbalize(nullptr, "x") ||
                         wetext_normalize(nullptr, "x");
        wetext_free_string(nullptr);
        wetext_destroy_processor(nullptr);
        return {any ? "string" : "null"};
      }
      if (name == "class_open") {
        processors.push_back(std::make_unique<wetext::Processor>(args.at(0), args.at(1)));
        paths.emplace_back(args.at(0), args.at(1));
        return {"ok", std::to_string(processors.size() - 1)};
      }
      if (name == "class_tag") return {"ok", processors.at(std::stoi(args.at(0)))->Tag(args.at(1))};
      if (name == "class_verbalize") return {"ok", processors.at(std::stoi(args.at(0)))->Verbalize(args.at(1))};
      if (name == "class_normalize") return {"ok", processors.at(std::stoi(args.at(0)))->Normalize(args.at(1))};
      if (name == "class_close") {
        processors.at(std::stoi(args.at(0))).reset();
        return {"ok"};
      }
      if (name == "allocated") return {"ok", std::to_string(allocated())};
      if (name == "threads") {  // own processors in several threads: tagger, verbalizer, number of threads, then texts
        const size_t n = std::stoi(args.at(2));
        std::vector<std::vector<std::string>> results(n);
        std::vector<std::thread> threads;
        for (size_t t = 0; t < n; ++t)
          threads.emplace_back([&, t]() {
            results[t] = guarded([&]() -> std::vector<std::string> {
              wetext::Processor own(args.at(0), args.at(1));
              std::vector<std::string> out{"ok"};
              for (size_t i = 3; i < args.size(); ++i) out.push_back(own.Normalize(args[3 + (i - 3 + t) % (args.size() - 3)]));
              return out;
            });
          });
        for (auto& t : threads) t.join();
        std::vector<std::string> out{"ok"};
        for (const auto& r : results) {
          out.push_back(r.at(0));
          for (size_t i = 1; i < r.size(); ++i) out.push_back(r[i]);
        }
        return out;
      }
      return {"unknown request"};
    }));
  }
  for (auto* handle : handles) wetext_destroy_processor(handle);
  return 0;
}
