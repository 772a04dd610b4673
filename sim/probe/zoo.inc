// Vague linkage: everything here is emitted by every backend and by otfft.cpp and merged by the ordinary linker.
#pragma once
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <list>
#include <deque>
#include <memory>
#include <functional>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <future>
#include <algorithm>
#include <numeric>
#include <stdexcept>
#include <sstream>
#include <array>
#include <tuple>
#include <complex>
#include <typeinfo>
#include <cstdio>
#include <cstdlib>
namespace zoo {
#define ZK(c) do { if (!(c)) { fprintf(stderr,"ZOO %d: %s\n",__LINE__,#c); abort(); } } while (0)
struct Base { virtual ~Base() {} virtual int f() const { return 1; } };
struct Derived : Base { std::vector<int> v; Derived() : v(3,2) {} int f() const override { return v[0]; } };
struct Err : std::runtime_error { Err() : std::runtime_error("zoo") {} };
template<class T> struct Shared { static T value; static std::mutex m; };
template<class T> T Shared<T>::value = T(5);
template<class T> std::mutex Shared<T>::m;
inline std::atomic<int>& counter() { static std::atomic<int> n(0); return n; }
inline std::mutex& lock() { static std::mutex m; return m; }
inline const std::vector<double>& table() { static const std::vector<double> t = [] { std::vector<double> r; for (int i = 0; i < 100; i++) r.push_back(i); return r; }(); return t; }
struct Slot { std::vector<int> v; std::string s; ~Slot() { v.clear(); } };
inline Slot& slot() { static thread_local Slot s; return s; }
inline int& plain_tls() { static thread_local int n = 0; return n; }
template<class K> inline std::map<K, std::shared_ptr<Base>>& registry() { static std::map<K, std::shared_ptr<Base>> m; return m; }
inline int throws(int n) { if (n > 3) throw Err(); return n; }
template<class F> int apply(F f) { std::function<int(int)> g = f; return g(2); }
template<class... A> std::size_t pack(A... a) { std::array<double, sizeof...(A)> r{{double(a)...}}; return r.size(); }
inline void run()
{
    std::vector<std::string> v; for (int i = 0; i < 40; i++) v.push_back("a string that is longer than the inline buffer " + std::to_string(i)); std::sort(v.begin(), v.end()); ZK(v.size() == 40);
    std::unordered_map<int, std::string> u; for (int i = 0; i < 60; i++) u[i * 7] = v[i % 40]; ZK(u.size() == 60);
    std::set<double> st; std::list<int> li; std::deque<long> dq; for (int i = 0; i < 200; i++) { st.insert(i % 17); li.push_back(i); dq.push_front(i); } li.sort(std::greater<int>()); ZK(st.size() == 17 && li.front() == 199 && dq.back() == 0);
    std::unique_ptr<Base> b(new Derived); ZK(b->f() == 2); ZK(dynamic_cast<Derived*>(b.get())); ZK(typeid(*b) == typeid(Derived));
    std::shared_ptr<Base> s = std::make_shared<Derived>(); std::weak_ptr<Base> w = s; auto s2 = s; ZK(s.use_count() == 2); s.reset(); s2.reset(); ZK(w.expired());
    int caught = 0; try { throws(5); } catch (const std::runtime_error& e) { caught = 1; } try { throws(7); } catch (const Err&) { caught++; } try { std::vector<int>().at(3); } catch (const std::out_of_range&) { caught++; } ZK(caught == 3);
    { std::lock_guard<std::mutex> g(Shared<int>::m); ZK(Shared<int>::value == 5); }
    counter()++; { std::lock_guard<std::mutex> g(lock()); registry<int>()[3] = std::make_shared<Derived>(); registry<int>().erase(3); }
    ZK(table().size() == 100 && table()[99] == 99);
    slot().v.push_back(1); slot().s += "x"; if (slot().v.size() > 50) { slot().v.clear(); slot().s.clear(); } const int mine = ++plain_tls();
    int k = 40; ZK(apply([&](int i) { return i + k; }) == 42); ZK(pack(1, 2.5, 3L) == 3);
    std::thread t([&] { slot().v.assign(10, 3); k = (int)slot().v.size(); plain_tls() = -9; }); t.join(); ZK(k == 10 && plain_tls() == mine);
    auto f = std::async(std::launch::async, [](int a) { return a * 2; }, 21); ZK(f.get() == 42);
    std::complex<double> c(1, 2); c *= c; ZK(c.real() == -3);
    ZK(std::accumulate(table().begin(), table().end(), 0.0) == 4950);
    auto tp = std::make_tuple(1, 2.0, std::string("x")); ZK(std::get<2>(tp) == "x");
}
}
