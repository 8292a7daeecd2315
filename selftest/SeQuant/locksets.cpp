#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace sequant {
// ---------------------------------------------------------------- globals
static std::mutex m1;
static std::map<int, int> table1;

void good_set(int k, int v) {
  std::scoped_lock lock(m1);
  table1[k] = v;
}
int good_get(int k) {
  std::lock_guard<std::mutex> lock(m1);
  auto it = table1.find(k);
  return it == table1.end() ? 0 : it->second;
}
int bad_read(int k) {
  auto it = table1.find(k);
  return it == table1.end() ? 0 : it->second;
}
void bad_temporary(int k) {
  std::scoped_lock<std::mutex>{m1};
  table1[k] = 1;
}
void bad_scope(int k) {
  { std::scoped_lock lock(m1); }
  table1.erase(k);
}
void bad_early_unlock(int k) {
  std::unique_lock<std::mutex> lock(m1);
  auto& t = table1;
  t[k] = 1;
  lock.unlock();
  t[k + 1] = 2;
}
void good_early_unlock(int k) {
  std::unique_lock<std::mutex> lock(m1);
  auto& t = table1;
  t[k] = 1;
  lock.unlock();
}
void bad_deferred(int k) {
  std::unique_lock<std::mutex> lock(m1, std::defer_lock);
  table1[k] = 3;
}
void good_deferred(int k) {
  std::unique_lock<std::mutex> lock(m1, std::defer_lock);
  lock.lock();
  table1[k] = 3;
}
void bad_one_branch(int k) {
  std::unique_lock<std::mutex> lock(m1, std::defer_lock);
  if (k > 3) lock.lock();
  table1[k] = 3;
}
std::map<int, int>& bad_handout() {
  std::scoped_lock lock(m1);
  return table1;
}
namespace detail {
void helper(int k) { table1[k] = 7; }
int& slot(int k) { return table1[k]; }
}  // namespace detail
void good_helper(int k) {
  std::scoped_lock lock(m1);
  detail::helper(k);
}
void bad_helper(int k) { detail::helper(k); }
void bad_slot(int k) { detail::slot(k) = 1; }
void good_slot(int k) {
  const std::scoped_lock lock(m1);
  detail::slot(k) = 1;
}

// --------------------------------------------------- guard from accessor
struct registry {
  static std::pair<std::map<int, int>*, std::unique_lock<std::recursive_mutex>>
  accessor() {
    static std::map<int, int> map_;
    static std::recursive_mutex mtx_;
    return std::make_pair(&map_,
                          std::unique_lock<std::recursive_mutex>{mtx_});
  }
  static void good_add(int k) {
    auto&& [map_ptr, lock] = accessor();
    (*map_ptr)[k] = 1;
  }
  static bool good_has(int k) {
    auto [map_ptr, lock] = accessor();
    return map_ptr->contains(k);
  }
  static void bad_released(int k) {
    auto [map_ptr, lock] = accessor();
    lock.unlock();
    (*map_ptr)[k] = 1;
  }
};

// ----------------------------------------------------------- class fields
class counter {
 public:
  const std::vector<int>& good_list() const {
    std::scoped_lock guard{mtx_};
    if (!memo_) memo_ = std::make_shared<std::vector<int>>(3);
    return *memo_;
  }
  const std::vector<int>& bad_double_checked() const {
    if (!memo_) {
      std::scoped_lock guard{mtx_};
      if (!memo_) memo_ = std::make_shared<std::vector<int>>(3);
    }
    return *memo_;
  }
  int good_next(int k) {
    std::map<int, std::atomic<int>>::iterator it;
    {
      std::scoped_lock guard{mtx_};
      it = counts_.find(k);
      if (it == counts_.end()) it = counts_.emplace(k, 0).first;
    }
    return ++(it->second);
  }
  int good_private_helper(int k) {
    std::scoped_lock guard{mtx_};
    return find(k);
  }
  int other_ = 0;
  int good_other() const { return other_; }

 private:
  int find(int k) { return counts_.find(k) == counts_.end(); }
  mutable std::mutex mtx_;
  mutable std::shared_ptr<std::vector<int>> memo_;
  std::map<int, std::atomic<int>> counts_;
};

class bad_idle {
 public:
  void set(int k) { v_ = k; }

 private:
  int v_ = 0;
  std::mutex mtx_;
};

// ---------------------------------------------------------------- workers
static int hits = 0;
static std::atomic<int> ahits = 0;
static int setting = 0;
void bad_count() { ++hits; }
void good_count() { ++ahits; }
void good_reset() { ahits = 0; }
int bad_lost() {
  const int v = ahits.load();
  ahits.store(v + 1);
  return v;
}
void bad_lost_ref(std::atomic<int>& a) { a = a + 1; }
int good_cas(std::atomic<int>& a) {
  int v = a.load();
  while (!a.compare_exchange_weak(v, v + 1)) {
  }
  return v;
}
std::atomic<int>& acount() {
  static std::atomic<int> n = 0;
  return n;
}
int bad_lost_accessor() {
  int next = acount() + 1;
  acount() = next;
  return next;
}
static std::shared_ptr<std::vector<int>> aholder_unused;
int good_lost_locked() {
  std::scoped_lock lock(m1);
  const int v = acount().load();
  acount().store(v + 1);
  return v;
}
void good_setting(int k) { setting = k; }
int good_use_setting() { return setting; }
void work() {
  bad_count();
  good_count();
  good_use_setting();
}
void start() {
  std::thread t([]() { work(); });
  t.join();
}

// --------------------------------------------------------- explicit locks
void grow(std::vector<int>& v);
void bad_raw(std::mutex* m, std::vector<int>& v) {
  m->lock();
  grow(v);
  m->unlock();
}
void bad_left(std::mutex* m, int& v) {
  m->lock();
  if (v > 3) return;
  ++v;
  m->unlock();
}
void good_raw(std::mutex* m, int& v) {
  m->lock();
  ++v;
  m->unlock();
}
void good_raw_try(std::mutex* m, std::vector<int>& v) {
  m->lock();
  try {
    grow(v);
  } catch (...) {
  }
  m->unlock();
}
}  // namespace sequant
