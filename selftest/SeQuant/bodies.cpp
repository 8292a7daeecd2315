#include <algorithm>
#include <array>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <string>
#include <thread>
#include <vector>

namespace sequant {
namespace detail {
template <typename Task>
void run(const Task& task) {
  std::vector<std::thread> threads;
  auto guarded = [&task](int id) { task(id); };
  for (int i = 0; i != 3; ++i) threads.emplace_back(guarded, i);
  for (auto& t : threads) t.join();
}
}  // namespace detail

template <typename Range, typename Op>
void each(Range& rng, const Op& op) {
  std::atomic<std::size_t> work = 0;
  auto task = [&work, &op, &rng]() {
    std::size_t id = work.fetch_add(1);
    while (id < rng.size()) {
      op(rng[id]);
      id = work.fetch_add(1);
    }
  };
  detail::run([&task](int) { task(); });
}

struct stats {
  std::atomic<int> n = 0;
  stats& operator+=(const stats& o) {
    n += o.n.load();
    return *this;
  }
};
struct plain {
  int n = 0;
  plain& operator+=(int k) {
    n += k;
    return *this;
  }
  int get() const { return n; }
};
int compute(int);

int bad_count(std::vector<int>& v) {
  int n = 0;
  each(v, [&n](int x) {
    if (compute(x)) ++n;
  });
  return n;
}
int bad_append(std::vector<int>& v) {
  std::vector<int> out;
  each(v, [&](int x) { out.push_back(compute(x)); });
  return out.size();
}
int good_append(std::vector<int>& v) {
  std::vector<int> out;
  std::mutex m;
  each(v, [&](int x) {
    int r = compute(x);
    std::scoped_lock lock(m);
    out.push_back(r);
  });
  return out.size();
}
int bad_own_mutex(std::vector<int>& v) {
  std::vector<int> out;
  each(v, [&](int x) {
    std::mutex m;
    std::scoped_lock lock(m);
    out.push_back(compute(x));
  });
  return out.size();
}
int bad_two_mutexes(std::vector<int>& v) {
  std::vector<int> out;
  std::mutex m, m2;
  each(v, [&](int x) {
    if (x > 3) {
      std::scoped_lock lock(m);
      out.push_back(x);
    } else {
      std::scoped_lock lock(m2);
      out.push_back(-x);
    }
  });
  return out.size();
}
int bad_peek(std::vector<int>& v) {
  std::vector<int> out;
  std::mutex m;
  each(v, [&](int x) {
    if (out.size() > 10) return;
    std::unique_lock<std::mutex> lock(m);
    out.push_back(x);
  });
  return out.size();
}
int good_conditional(std::vector<int>& v) {
  int best = 0;
  std::mutex m;
  each(v, [&best, &m](int x) {
    const int r = compute(x);
    if (r > 3) {
      std::lock_guard<std::mutex> lock(m);
      if (r > best) best = r;
    }
  });
  return best;
}
std::vector<int> good_slot(const std::vector<int>& v) {
  std::vector<int> out(v.size());
  std::vector<std::size_t> idx(v.size());
  each(idx, [&](std::size_t i) { out[i] = compute(v[i]); });
  return out;
}
std::vector<int> good_slot_ref(const std::vector<int>& v) {
  std::vector<int> out(v.size());
  std::vector<std::size_t> idx(v.size());
  each(idx, [&](std::size_t i) {
    const auto pos = i;
    auto& slot = out[pos];
    slot = compute(v[i]);
  });
  return out;
}
std::vector<int> bad_slot_shift(const std::vector<int>& v) {
  std::vector<int> out(v.size());
  std::vector<std::size_t> idx(v.size());
  each(idx, [&](std::size_t i) {
    out[i] = compute(v[i]);
    if (out[i + 1] > 3) out[i] = 0;
  });
  return out;
}
std::vector<int> bad_slot_half(const std::vector<int>& v) {
  std::vector<int> out(v.size());
  std::vector<std::size_t> idx(v.size());
  each(idx, [&](std::size_t i) { out[i / 2] = compute(v[i]); });
  return out;
}
std::vector<bool> bad_bits(const std::vector<int>& v) {
  std::vector<bool> out(v.size());
  std::vector<std::size_t> idx(v.size());
  each(idx, [&](std::size_t i) { out[i] = compute(v[i]) > 0; });
  return out;
}
std::map<int, int> bad_map(std::vector<int>& v) {
  std::map<int, int> out;
  each(v, [&](int x) { out[x] = compute(x); });
  return out;
}
std::vector<int> good_ticket(const std::vector<int>& v) {
  std::vector<int> out(v.size());
  std::atomic<std::size_t> next = 0;
  detail::run([&](int) {
    for (std::size_t i = next++; i < v.size(); i = next++) out[i] = compute(v[i]);
  });
  return out;
}
int bad_hoisted(std::vector<int>& v) {
  int tmp = 0;
  std::atomic<int> sum = 0;
  each(v, [&](int x) {
    tmp = compute(x);
    sum += tmp;
  });
  return sum;
}
int bad_split_atomic(std::vector<int>& v) {
  std::atomic<int> sum = 0;
  each(v, [&](int x) {
    int s = sum.load();
    sum.store(s + compute(x));
  });
  return sum;
}
int good_atomic(std::vector<int>& v) {
  std::atomic<int> sum = 0;
  each(v, [&](int x) { sum += compute(x); });
  return sum;
}
void swap_in(std::vector<int>& a, int x) { a.push_back(x); }
void look(const std::vector<int>& a, int x);
int bad_by_helper(std::vector<int>& v) {
  std::vector<int> out;
  each(v, [&](int x) { swap_in(out, x); });
  return out.size();
}
int good_by_helper(std::vector<int>& v) {
  std::vector<int> out;
  std::mutex m;
  auto put = [&](int r) {
    std::scoped_lock lock(m);
    swap_in(out, r);
  };
  each(v, [&](int x) {
    look(v, x);
    put(compute(x));
  });
  return out.size();
}
int good_locked_outside(std::vector<int>& v) {
  std::vector<int> out;
  std::mutex m;
  auto put = [&](int r) { out.push_back(r); };
  each(v, [&](int x) {
    auto r = compute(x);
    auto local = [&](int k) { out.push_back(k); };
    std::scoped_lock lock(m);
    local(r);
  });
  return out.size();
}
int bad_pointer(std::vector<int>& v) {
  plain p;
  plain* q = &p;
  each(v, [q](int x) { *q += x; });
  return p.get();
}
int good_stats(std::vector<int>& v) {
  stats s;
  each(v, [&s](int x) {
    stats mine;
    mine.n = x;
    s += mine;
  });
  return s.n;
}
class owner {
 public:
  void good_run(std::vector<int>& v) {
    each(v, [this](int x) { st_ += stats{x}; });
  }
  void bad_run(std::vector<int>& v) {
    each(v, [this](int x) { last_ = x; });
  }
  void bad_method(std::vector<int>& v) {
    each(v, [this](int x) { remember(x); });
  }
  void good_method(std::vector<int>& v) {
    each(v, [this](int x) { compute(x + peek()); });
  }
  void bad_cache(std::vector<int>& v) const {
    each(v, [this](int x) { compute(x + cached(x)); });
  }
  void good_cache(std::vector<int>& v) const {
    each(v, [this](int x) { compute(x + locked(x)); });
  }

 private:
  void remember(int x) { last_ = x; }
  int peek() const { return last_; }
  int lookup(int x) const {
    if (!filled_) cache_ = compute(x);
    filled_ = true;
    return cache_;
  }
  int cached(int x) const { return lookup(x); }
  int locked(int x) const {
    std::scoped_lock<std::mutex> lk(m_);
    if (!kept_) kept_ = compute(x);
    return kept_;
  }
  int last_ = 0;
  stats st_;
  mutable bool filled_ = false;
  mutable int cache_ = 0, kept_ = 0;
  mutable std::mutex m_;
};
}  // namespace sequant
