/*  Stands before the real header: everything of it is there, but the class `watch`
    is one whose events, and end, the harness determines. */
#pragma once
#define watch watch_real_
#include_next <wtr/watcher.hpp>
#undef watch
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace mock {
struct Inst {
  std::string path;
  std::function<void(wtr::event const&)> cb;
  bool live = false;         /* constructed and not destroyed */
  int closes = 0;
  bool close_ok = true;      /* what the first close() gives */
  std::vector<std::function<void(Inst&)>> on_close; /* what happens during it */
};
extern std::vector<std::unique_ptr<Inst>> all;
extern void* last_watch;
}
namespace wtr {
inline namespace watcher {
class watch {
  size_t const id;
  long canary[4];
public:
  watch(std::filesystem::path const& path, event::callback const& cb) noexcept : id(mock::all.size())
  { auto i = std::make_unique<mock::Inst>(); i->path = path.native(); i->cb = cb; i->live = true; mock::all.push_back(std::move(i)); for (auto& c : canary) c = 0x5157; }
  watch(watch const&) = delete;
  auto close() noexcept -> bool
  { auto& i = *mock::all[id]; i.closes++; if (i.closes > 1) return false; for (auto& f : i.on_close) f(i); i.cb = nullptr; return i.close_ok; }
  ~watch() noexcept { this->close(); mock::all[id]->live = false; for (auto& c : canary) c = 0; }
};
} }
