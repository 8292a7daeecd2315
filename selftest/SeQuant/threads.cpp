#include <atomic>
#include <algorithm>
#include <exception>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>
int nthreads();
inline int nthr() { static int n = 4; return n; }
void work(int);
struct Op { void operator()(int) const; };

template <typename F>
void good_vector(const F& op) {
  std::exception_ptr e;
  std::mutex m;
  auto body = [&](int i) {
    try {
      op(i);
    } catch (...) {
      std::scoped_lock l(m);
      if (e) return;
      e = std::current_exception();
    }
  };
  const int n = nthr();
  std::vector<std::thread> ts;
  try {
    for (int i = 0; i != n; ++i) ts.emplace_back(body, i);
  } catch (...) {
    std::scoped_lock l(m);
    if (!e) e = std::current_exception();
  }
  body(n);
  for (std::size_t i = 0; i < ts.size(); ++i) ts[i].join();
  if (e != nullptr) std::rethrow_exception(e);
}
template void good_vector<Op>(const Op&);

template <typename F>
void good_guard(const F& op) {
  std::exception_ptr e;
  std::mutex m;
  auto note = [&](std::exception_ptr x) {
    std::lock_guard<std::mutex> l(m);
    if (!e) e = x;
  };
  {
    struct Joiner {
      std::vector<std::thread> ts;
      ~Joiner() {
        for (auto& t : ts)
          if (t.joinable()) t.join();
      }
    } j;
    for (int i = 0; i != 4; ++i)
      j.ts.push_back(std::thread([&, i] {
        try {
          op(i);
        } catch (...) {
          note(std::current_exception());
        }
      }));
  }
  if (e) std::rethrow_exception(e);
}
template void good_guard<Op>(const Op&);

template <typename F>
void good_each(const F& op) {
  std::vector<std::exception_ptr> es(4);
  std::vector<std::thread> ts;
  ts.reserve(3);
  auto body = [&](int i) noexcept {
    try {
      op(i);
    } catch (...) {
      es[i] = std::current_exception();
    }
  };
  try {
    for (int i = 0; i != 3; ++i) ts.emplace_back(body, i);
  } catch (...) {
    es[3] = std::current_exception();
  }
  body(3);
  std::for_each(ts.begin(), ts.end(), [](std::thread& t) { t.join(); });
  for (auto& e : es)
    if (e) std::rethrow_exception(e);
}
template void good_each<Op>(const Op&);

template <typename F>
void bad_nocatch(const F& op) {
  std::vector<std::thread> ts;
  for (int i = 0; i != 4; ++i) ts.emplace_back([&](int k) { op(k); }, i);
  for (auto& t : ts) t.join();
}
template void bad_nocatch<Op>(const Op&);

template <typename F>
void bad_typed(const F& op) {
  std::exception_ptr e;
  std::vector<std::thread> ts;
  std::thread t([&] {
    try {
      op(1);
    } catch (const std::exception&) {
      e = std::current_exception();
    }
  });
  t.join();
  if (e) std::rethrow_exception(e);
}
template void bad_typed<Op>(const Op&);

template <typename F>
void bad_swallow(const F& op) {
  std::exception_ptr e;
  std::thread t([&] {
    try {
      op(1);
    } catch (const std::runtime_error&) {
    } catch (...) {
      e = std::current_exception();
    }
  });
  t.join();
  if (e) std::rethrow_exception(e);
}
template void bad_swallow<Op>(const Op&);

template <typename F>
void bad_onlymain(const F& op) {
  std::exception_ptr e;
  std::vector<std::thread> ts;
  auto body = [&](int i) {
    try {
      op(i);
    } catch (...) {
      if (i == 0) e = std::current_exception();
    }
  };
  try {
    for (int i = 1; i != 4; ++i) ts.emplace_back(body, i);
  } catch (...) {
    e = std::current_exception();
  }
  body(0);
  for (auto& t : ts) t.join();
  if (e) std::rethrow_exception(e);
}
template void bad_onlymain<Op>(const Op&);

template <typename F>
void bad_early(const F& op) {
  std::exception_ptr e;
  auto body = [&](int i) {
    try {
      op(i);
    } catch (...) {
      e = std::current_exception();
    }
  };
  std::vector<std::thread> ts;
  for (int i = 1; i != 4; ++i) ts.emplace_back(body, i);
  if (e) std::rethrow_exception(e);
  for (auto& t : ts) t.join();
  if (e) std::rethrow_exception(e);
}
template void bad_early<Op>(const Op&);

template <typename F>
void bad_direct(const F& op) {
  std::exception_ptr e;
  auto body = [&](int i) {
    try {
      op(i);
    } catch (...) {
      e = std::current_exception();
    }
  };
  std::vector<std::thread> ts;
  try {
    for (int i = 1; i != 4; ++i) ts.emplace_back(body, i);
  } catch (...) {
    e = std::current_exception();
  }
  op(0);
  for (auto& t : ts) t.join();
  if (e) std::rethrow_exception(e);
}
template void bad_direct<Op>(const Op&);

template <typename F>
void bad_norethrow(const F& op) {
  std::exception_ptr e;
  auto body = [&](int i) {
    try {
      op(i);
    } catch (...) {
      e = std::current_exception();
    }
  };
  std::vector<std::thread> ts;
  try {
    for (int i = 1; i != 4; ++i) ts.emplace_back(body, i);
  } catch (...) {
    e = std::current_exception();
  }
  for (auto& t : ts) t.join();
  if (e && nthreads() > 1) std::rethrow_exception(e);
}
template void bad_norethrow<Op>(const Op&);

template <typename F>
void bad_partjoin(const F& op) {
  std::exception_ptr e;
  auto body = [&](int i) {
    try {
      op(i);
    } catch (...) {
      e = std::current_exception();
    }
  };
  std::vector<std::thread> ts;
  try {
    for (int i = 1; i != 4; ++i) ts.emplace_back(body, i);
  } catch (...) {
    e = std::current_exception();
  }
  for (auto& t : ts) {
    if (e) break;
    t.join();
  }
  if (e) std::rethrow_exception(e);
}
template void bad_partjoin<Op>(const Op&);
