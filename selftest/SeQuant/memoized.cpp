#include <condition_variable>
#include <functional>
#include <map>
#include <mutex>
#include <optional>
#include <vector>
#include <algorithm>
int compute(int);
using M = std::map<int, std::optional<int>>;

const int& good_guard(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  {
    std::unique_lock<std::mutex> l(mx);
    while (true) {
      auto it = cache.find(key);
      if (it == cache.end()) break;
      if (it->second) return *it->second;
      cv.wait(l);
    }
    cache.emplace(key, std::nullopt);
  }
  struct G {
    M& c; std::mutex& m; std::condition_variable& v; int k; bool on = true;
    ~G() {
      if (on) {
        std::scoped_lock<std::mutex> l(m);
        c.erase(k);
        v.notify_all();
      }
    }
  } g{cache, mx, cv, key};
  int r = compute(key);
  std::scoped_lock<std::mutex> l(mx);
  auto& e = cache.at(key);
  e = r;
  g.on = false;
  cv.notify_all();
  return *e;
}
const int& good_catch(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  std::unique_lock<std::mutex> l(mx);
  cv.wait(l, [&] { auto i = cache.find(key); return i == cache.end() || i->second.has_value(); });
  auto it = cache.find(key);
  if (it != cache.end()) return *it->second;
  cache.try_emplace(key, std::nullopt);
  l.unlock();
  int r;
  try {
    r = compute(key);
  } catch (...) {
    l.lock();
    cache.erase(key);
    cv.notify_all();
    throw;
  }
  l.lock();
  cache[key] = r;
  cv.notify_all();
  return *cache[key];
}
const int& bad_iterator(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  {
    std::unique_lock<std::mutex> l(mx);
    auto [it, inserted] = cache.try_emplace(key, std::nullopt);
    if (!inserted) {
      while (!it->second) cv.wait(l);
      return *it->second;
    }
  }
  int r;
  try {
    r = compute(key);
  } catch (...) {
    std::unique_lock<std::mutex> l(mx);
    cache.erase(key);
    cv.notify_all();
    throw;
  }
  std::unique_lock<std::mutex> l(mx);
  cache[key] = r;
  cv.notify_all();
  return *cache[key];
}
const int& bad_noguard(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  {
    std::unique_lock<std::mutex> l(mx);
    while (true) {
      auto it = cache.find(key);
      if (it == cache.end()) break;
      if (it->second) return *it->second;
      cv.wait(l);
    }
    cache.emplace(key, std::nullopt);
  }
  int r = compute(key);
  std::scoped_lock<std::mutex> l(mx);
  cache[key] = r;
  cv.notify_all();
  return *cache[key];
}
const int& bad_nowake(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  std::unique_lock<std::mutex> l(mx);
  cv.wait(l, [&] { auto i = cache.find(key); return i == cache.end() || i->second.has_value(); });
  auto it = cache.find(key);
  if (it != cache.end()) return *it->second;
  cache.try_emplace(key, std::nullopt);
  l.unlock();
  int r;
  try {
    r = compute(key);
  } catch (...) {
    l.lock();
    cache.erase(key);
    throw;
  }
  l.lock();
  cache[key] = r;
  cv.notify_all();
  return *cache[key];
}
const int& bad_wakeone(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  std::unique_lock<std::mutex> l(mx);
  cv.wait(l, [&] { auto i = cache.find(key); return i == cache.end() || i->second.has_value(); });
  auto it = cache.find(key);
  if (it != cache.end()) return *it->second;
  cache.try_emplace(key, std::nullopt);
  l.unlock();
  int r;
  try {
    r = compute(key);
  } catch (...) {
    l.lock();
    cache.erase(key);
    cv.notify_all();
    throw;
  }
  l.lock();
  cache[key] = r;
  cv.notify_one();
  return *cache[key];
}
const int& bad_unlocked(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  std::unique_lock<std::mutex> l(mx);
  cv.wait(l, [&] { auto i = cache.find(key); return i == cache.end() || i->second.has_value(); });
  auto it = cache.find(key);
  if (it != cache.end()) return *it->second;
  cache.try_emplace(key, std::nullopt);
  l.unlock();
  int r;
  try {
    r = compute(key);
  } catch (...) {
    l.lock();
    cache.erase(key);
    cv.notify_all();
    throw;
  }
  cache[key] = r;
  cv.notify_all();
  return *cache[key];
}
const int& bad_store(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  std::unique_lock<std::mutex> l(mx);
  cv.wait(l, [&] { auto i = cache.find(key); return i == cache.end() || i->second.has_value(); });
  auto it = cache.find(key);
  if (it != cache.end()) return *it->second;
  cache.try_emplace(key, std::nullopt);
  l.unlock();
  int r;
  try {
    r = compute(key);
  } catch (...) {
    l.lock();
    cache[key] = 0;
    cache.erase(key);
    cv.notify_all();
    throw;
  }
  l.lock();
  cache[key] = r;
  cv.notify_all();
  return *cache[key];
}
const int& bad_once(M& cache, std::mutex& mx, std::condition_variable& cv, const int& key) {
  {
    std::unique_lock<std::mutex> l(mx);
    if (auto it = cache.find(key); it != cache.end()) {
      if (!it->second) cv.wait(l);
      return *cache[key];
    }
    cache.emplace(key, std::nullopt);
  }
  int r;
  try {
    r = compute(key);
  } catch (...) {
    std::unique_lock<std::mutex> l(mx);
    cache.erase(key);
    cv.notify_all();
    throw;
  }
  std::unique_lock<std::mutex> l(mx);
  cache[key] = r;
  cv.notify_all();
  return *cache[key];
}
