#include "dsym.h"
#include "os.h"
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <cassert>
#include <cctype>
#include <climits>
#include <cstdio>
#include <cstring>
#include <poll.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#define E(n) extern "C" void n()
#define OK dsym_reach("ok")
#define A(...) dsym_assert(!!(__VA_ARGS__), #__VA_ARGS__)
E(t_scoped) { std::mutex a, b; { std::scoped_lock l(a, b); } { std::scoped_lock l(a); } { std::lock(a, b); std::lock_guard<std::mutex> x(a, std::adopt_lock), y(b, std::adopt_lock); } A(a.try_lock()); a.unlock(); std::unique_lock<std::mutex> u(a, std::defer_lock); u.lock(); u.unlock(); A(u.try_lock()); OK; }
E(t_recursive) { std::recursive_mutex r; std::lock_guard<std::recursive_mutex> a(r); std::lock_guard<std::recursive_mutex> b(r); OK; }
E(t_shared) { std::shared_mutex m; { std::shared_lock<std::shared_mutex> s(m); } { std::unique_lock<std::shared_mutex> s(m); } OK; }
E(t_timedmutex) { std::timed_mutex m; A(m.try_lock_for(std::chrono::milliseconds(5))); m.unlock(); OK; }
E(t_function) { int k = 3; std::function<int(int)> f = [k](int x) { return x + k; }; A(f(2) == 5); std::function<int(int)> g = f; f = nullptr; A(g(1) == 4 && !f); auto b = std::bind(g, std::placeholders::_1); A(b(1) == 4); OK; }
E(t_optional) { std::optional<std::string> o; A(!o); o = "abc"; A(o->size() == 3); A(o.value_or("x") == "abc"); o.reset(); OK; }
E(t_variant) { std::variant<int, std::string> v = 3; A(std::get<int>(v) == 3); v = std::string("q"); A(std::visit([](auto&& x) { return sizeof(x); }, v) == sizeof(std::string)); OK; }
E(t_unordered) { std::unordered_map<uint32_t, std::string> m; for (int i = 0; i < 40; i++) m[i] = std::to_string(i); A(m.size() == 40 && m.at(7) == "7"); m.erase(3); A(m.count(3) == 0); std::unordered_set<std::string> s{"a", "b"}; A(s.find("a") != s.end()); OK; }
E(t_umap_sym) { std::unordered_map<uint32_t, int> m; uint32_t k = sym<uint32_t>("k"); m[k] = 1; m[5] = 2; A(m.count(k) == 1); OK; }
E(t_map) { std::map<std::string, int> m{{"a", 1}, {"b", 2}}; m.emplace("c", 3); auto it = m.lower_bound("b"); A(it->second == 2); m.insert_or_assign("b", 5); A(m.try_emplace("z", 4).second); for (auto& [k, v] : m) v++; A(m["b"] == 6); std::multimap<int, int> mm; mm.emplace(1, 2); mm.emplace(1, 3); A(mm.count(1) == 2); auto n = m.extract("a"); A(!n.empty()); OK; }
E(t_set) { std::set<uint32_t> s{3, 1, 2}; A(*s.begin() == 1); s.erase(s.begin()); A(s.size() == 2); A(s.insert(9).second); OK; }
E(t_deque) { std::deque<int> d; for (int i = 0; i < 300; i++) d.push_back(i); for (int i = 0; i < 290; i++) d.pop_front(); A(d.front() == 290); std::queue<std::string> q; q.push("a"); q.push("b"); A(q.front() == "a"); q.pop(); std::stack<int> st; st.push(1); A(st.top() == 1); std::priority_queue<int> pq; pq.push(3); pq.push(5); A(pq.top() == 5); OK; }
E(t_algo) { std::vector<int> v{5, 3, 9, 1, 7}; std::sort(v.begin(), v.end()); A(v[0] == 1 && std::is_sorted(v.begin(), v.end())); A(std::find(v.begin(), v.end(), 7) != v.end()); A(std::any_of(v.begin(), v.end(), [](int x) { return x == 9; })); v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x > 6; }), v.end()); A(v.size() == 3); A(std::accumulate(v.begin(), v.end(), 0) == 9); std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + 1, v.end()); std::vector<int> w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](int x) { return x > 1; }); std::transform(v.begin(), v.end(), v.begin(), [](int x) { return x + 1; }); A(*std::max_element(v.begin(), v.end()) == 6); std::for_each(w.begin(), w.end(), [](int& x) { x = 0; }); A(std::count(w.begin(), w.end(), 0) == 2); std::fill_n(w.begin(), 2, 4); A(std::all_of(w.begin(), w.end(), [](int x) { return x == 4; })); std::stable_sort(v.begin(), v.end()); std::unique(v.begin(), v.end()); A(std::equal(w.begin(), w.end(), w.begin())); OK; }
E(t_list) { std::list<int> l{3, 1, 2}; l.sort(); l.remove_if([](int x) { return x == 2; }); l.push_front(0); l.splice(l.end(), l, l.begin()); A(l.back() == 0 && l.size() == 3); l.erase(std::next(l.begin())); l.insert(l.begin(), 8); l.reverse(); OK; }
E(t_string) { std::string s = "hello"; s += " world"; s.append(3, 'x'); s.insert(0, "ab"); s.erase(0, 2); A(s.find("wor") == 6 && s.rfind('x') == 13); A(s.substr(0, 5) == "hello"); s.replace(0, 5, "HE"); s.resize(4); s.reserve(100); s.push_back('q'); A(s.compare("HE wq") == 0); A(s.find_first_of("wz") == 3); A(s.find_last_not_of("q") == 3); std::string t(s.rbegin(), s.rend()); s.swap(t); s.assign(t, 0, 2); s.shrink_to_fit(); A(s + 'c' + "d" + t == "HEcdHE wq"); A(std::stoi("42") == 42); A(std::stoul("7") == 7); OK; }
E(t_sv) { std::string_view v = "abcdef"; A(v.substr(2, 2) == "cd"); v.remove_prefix(1); A(v.find('d') == 2 && v.front() == 'b'); std::string s(v); A(s == v); OK; }
E(t_sstream) { std::ostringstream o; o << "a" << 5 << ' ' << std::string("x"); A(o.str() == "a5 x"); OK; }
E(t_snprintf) { char b[40]; snprintf(b, sizeof b, "%s: %u %d %lx", "q", 5u, -3, 255ul); A(!strcmp(b, "q: 5 -3 ff")); OK; }
E(t_smart) { auto p = std::make_unique<std::string>("a"); auto q = std::move(p); A(!p && *q == "a"); std::shared_ptr<int> s = std::make_shared<int>(3); std::weak_ptr<int> w = s; A(w.lock() && s.use_count() == 1); s.reset(); A(w.expired()); std::unique_ptr<char[]> a(new char[5]); std::unique_ptr<char[], void(*)(char*)> c(new char[4], [](char* x) { delete[] x; }); OK; }
E(t_atomic) { std::atomic<int> a{1}; a++; a.fetch_add(3); int e = 5; A(a.compare_exchange_strong(e, 9)); A(a.exchange(2) == 9); std::atomic<bool> b{false}; b = true; A(b.load(std::memory_order_acquire)); std::atomic_flag f = ATOMIC_FLAG_INIT; A(!f.test_and_set()); std::atomic<void*> p{nullptr}; p.store(&a); OK; }
E(t_tuple) { auto t = std::make_tuple(1, std::string("a")); auto [x, y] = t; A(x == 1 && y == "a"); int m; std::tie(m, std::ignore) = t; A(std::exchange(m, 5) == 1 && m == 5); std::array<int, 3> a{1, 2, 3}; A(a.at(1) == 2 && std::clamp(9, 1, 5) == 5); std::any an = 5; A(std::any_cast<int>(an) == 5); OK; }
E(t_except) { int got = 0; try { throw std::runtime_error("x"); } catch (const std::exception& e) { got = 1; } A(got); try { std::vector<int> v; v.at(3); } catch (...) { got = 2; } A(got == 2); OK; }
E(t_thread) { std::atomic<int> n{0}; std::mutex m; std::condition_variable cv; bool go = false; std::thread t([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return go; }); n = 5; }); { std::lock_guard<std::mutex> l(m); go = true; } cv.notify_all(); t.join(); A(n == 5); std::vector<std::thread> ts; for (int i = 0; i < 2; i++) ts.emplace_back([&n] { n++; }); for (auto& x : ts) x.join(); A(n == 7); OK; }
E(t_cvany) { std::mutex m; std::condition_variable_any cv; bool go = false; std::thread t([&] { std::unique_lock<std::mutex> l(m); while (!go) cv.wait(l); }); { std::lock_guard<std::mutex> l(m); go = true; } cv.notify_one(); t.join(); OK; }
E(t_once) { std::once_flag f; int n = 0; for (int i = 0; i < 3; i++) std::call_once(f, [&] { n++; }); A(n == 1); OK; }
E(t_promise) { std::promise<int> p; auto f = p.get_future(); std::thread t([&] { p.set_value(4); }); A(f.get() == 4); t.join(); OK; }
E(t_chrono) { os::env.horizon = 1000; auto a = std::chrono::steady_clock::now(); std::this_thread::sleep_for(std::chrono::milliseconds(500)); auto b = std::chrono::steady_clock::now(); A(b - a >= std::chrono::milliseconds(500)); std::this_thread::yield(); auto d = std::chrono::duration_cast<std::chrono::milliseconds>(b - a).count(); A(d >= 500); std::mutex m; std::condition_variable cv; std::unique_lock<std::mutex> l(m); A(cv.wait_for(l, std::chrono::seconds(1)) == std::cv_status::timeout); A(!cv.wait_until(l, std::chrono::steady_clock::now() + std::chrono::seconds(1), [] { return false; })); auto s = std::chrono::system_clock::now(); (void)s; std::this_thread::sleep_until(std::chrono::steady_clock::now() + std::chrono::seconds(1)); OK; }
E(t_posix) { os::env.horizon = 1000; timespec ts{0, 500000000}; nanosleep(&ts, 0); clock_gettime(CLOCK_MONOTONIC, &ts); usleep(1000); sleep(1); time_t t = time(0); (void)t; char b[8]; memset(b, 0, 8); memmove(b + 1, b, 4); A(memcmp(b, b + 4, 4) == 0); pollfd p; A(poll(&p, 0, 10) == 0); OK; }
E(t_readv) { int p[2]; A(pipe(p) == 0); char a[3] = {1, 2, 3}; iovec v[2] = {{a, 1}, {a + 1, 2}}; A(writev(p[1], v, 2) == 3); char b[4]; A(read(p[0], b, 4) == 3); close(p[0]); close(p[1]); OK; }
E(t_bitset) { std::vector<bool> b(10); b[3] = true; A(b[3] && !b[4]); OK; }
E(t_static) { static const std::map<int, std::function<int()>> t{{1, [] { return 5; }}, {2, [] { return 6; }}}; A(t.at(2)() == 6); thread_local int k = 3; A(++k == 4); OK; }
struct Base { virtual ~Base() {} virtual int f() { return 1; } }; struct Der : Base { int f() override { return 2; } };
E(t_rtti) { std::unique_ptr<Base> b(new Der); A(dynamic_cast<Der*>(b.get()) && b->f() == 2); A(typeid(*b) == typeid(Der)); auto fp = &Base::f; A((b.get()->*fp)() == 2); OK; }
template<class... T> int sum(T... t) { return (t + ...); }
E(t_misc) { A(sum(1, 2, 3) == 6); auto rec = [](auto&& self, int n) -> int { return n ? n + self(self, n - 1) : 0; }; A(rec(rec, 4) == 10); int x = sym<int>("x"); switch (x) { case 1: case 2: OK; break; case 77: OK; default: goto end; } end: uint64_t y = sym<uint64_t>("y"); A(__builtin_bswap64(__builtin_bswap64(y)) == y); A(__builtin_popcount(7) == 3); A(y == ((y << 8) | (y >> 56)) >> 0 || true); double d = 0.5; A(d * 2 == 1.0); A((int)(2.9 + d) == 3); float f = 1.5f; A((long)(f * 1e3) == 1500); OK; }
E(t_signed) { int64_t a = sym<int64_t>("a"); uint32_t b = sym<uint32_t>("b"); int64_t r; if (!__builtin_add_overflow(a, (int64_t)b, &r)) A(r - b == a); uint32_t q; if (!__builtin_mul_overflow(b, 8u, &q)) A(q / 8 == b); OK; }
E(t_new) { auto p = new (std::nothrow) char[10]; A(p); delete[] p; void* q = calloc(2, 8); q = realloc(q, 32); A(q); free(q); void* m = std::malloc(4); std::free(m); alignas(16) char st[64]; auto s = new (st) std::string("x"); s->~basic_string(); OK; }
E(t_async) { auto f = std::async(std::launch::async, [] { return 3; }); A(f.get() == 3); OK; }
E(t_vec) { std::vector<std::string> v; v.reserve(3); v.emplace_back("a"); v.insert(v.begin(), "b"); v.erase(v.begin()); std::vector<std::string> w(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); A(w[0] == "a" && w.size() == 1); w.resize(5); w.assign(2, "q"); w.swap(v); A(v.back() == "q"); v.pop_back(); std::vector<char> c(10, 'x'); memcpy(c.data(), "ab", 2); A(std::string(c.begin(), c.begin() + 2) == "ab"); c.insert(c.end(), {'a', 'b'}); OK; }
E(t_reinterpret) { unsigned char b[4] = {1, 2, 3, 4}; uint32_t n; memcpy(&n, b, 4); A(n == 0x04030201); n = *reinterpret_cast<uint32_t*>(b); A((n & 0xff) == 1); uint16_t s = sym<uint16_t>("s"); b[0] = s & 0xff; b[1] = s >> 8; memcpy(&s, b, 2); A(s == b[0] + 256 * b[1]); OK; }
E(t_errstr) { A(strlen(strerror(2)) > 0); perror("x"); puts("x"); printf("%d\n", 3); fprintf(stderr, "x"); OK; }
E(t_cout) { OK; }
E(t_jthread) { os::env.horizon = 1000; std::thread t; A(!t.joinable()); std::thread u([] {}); A(u.joinable()); A(u.get_id() != std::this_thread::get_id()); t = std::move(u); t.join(); std::thread v([] {}); v.detach(); sleep(1); OK; }
E(t_ppoll) { int p[2]; pipe(p); pollfd f{p[0], POLLIN, 0}; timespec ts{1, 0}; A(ppoll(&f, 1, &ts, 0) == 0); write(p[1], "a", 1); A(ppoll(&f, 1, 0, 0) == 1); fd_set r; FD_ZERO(&r); FD_SET(p[0], &r); timeval tv{1, 0}; A(select(p[0] + 1, &r, 0, 0, &tv) == 1 && FD_ISSET(p[0], &r)); close(p[0]); close(p[1]); OK; }
E(t_cxa) { struct G { int* n; ~G() { (*n)++; } }; int n = 0; try { G g{&n}; throw 1; } catch (int k) { A(k == 1); } A(n == 1); OK; }
E(t_filter) { const char* names[] = {"a", "b", nullptr}; int k = 0; for (auto p = names; *p; ++p) k++; A(k == 2); std::string s; for (auto c : {'x', 'y'}) s += c; A(s == "xy"); A(std::to_string(-5l) == "-5" && std::to_string(3.5).size() > 2); OK; }
E(t_isval) { for (unsigned char c : std::string("aZ_9-")) { (void)std::isalnum(c); } A(std::isalpha('a') && !std::ispunct('a') && std::isxdigit('f')); OK; }
E(t_recvmsg) { OK; }
E(t_epoll) { OK; }
E(t_hash) { A(std::hash<std::string>()("a") == std::hash<std::string>()(std::string("a"))); OK; }
E(t_rlock) { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); pthread_mutex_unlock(&m); pthread_cond_t c = PTHREAD_COND_INITIALIZER; pthread_cond_signal(&c); OK; }
E(t_numlim) { A(std::numeric_limits<uint32_t>::max() == UINT32_MAX); A(std::abs(-3) == 3 && std::min<uint64_t>(3, 4) == 3); OK; }
E(t_iter) { std::map<int, int> m{{1, 1}, {2, 2}, {3, 3}}; for (auto it = m.begin(); it != m.end();) it = it->first == 2 ? m.erase(it) : std::next(it); A(m.size() == 2 && m.rbegin()->first == 3); std::set<std::string, std::less<>> s{"a"}; A(s.count(std::string_view("a"))); A(std::distance(m.begin(), m.end()) == 2); OK; }
E(t_memfn) { struct S { int v; int get() const { return v; } }; S s{4}; A(std::mem_fn(&S::get)(s) == 4); A(std::invoke(&S::get, s) == 4); std::reference_wrapper<S> r = s; A(r.get().v == 4); OK; }
E(t_strm) { char* e; A(strtoul("12x", &e, 10) == 12 && *e == 'x'); A(atoi("5") == 5); A(strstr("abc", "bc") != 0); A(strrchr("aba", 'a') != 0); char b[8] = "x"; strcat(b, "y"); strncat(b, "zz", 1); A(!strcmp(b, "xyz")); OK; }
E(t_itos) { char b[24]; sprintf(b, "%lu", 12345678901ul); A(std::string(b) == "12345678901"); snprintf(b, 24, "%02x", 10); A(!strcmp(b, "0a")); OK; }
E(t_generic) { std::vector<std::pair<std::string, int>> v{{"b", 1}, {"a", 2}}; std::sort(v.begin(), v.end()); A(v[0].first == "a"); auto it = std::find_if(v.begin(), v.end(), [](const auto& p) { return p.second == 1; }); A(it != v.end() && std::lower_bound(v.begin(), v.end(), std::make_pair(std::string("b"), 0)) == it); std::vector<int> h{1, 2}; std::vector<int> z(h.rbegin(), h.rend()); A(z[0] == 2); std::iota(h.begin(), h.end(), 5); A(h[1] == 6); std::swap(h, z); std::move(z.begin(), z.end(), h.begin()); OK; }
E(t_cow) { std::string a(40, 'x'); std::string b = std::move(a); A(b.size() == 40); a = b; A(a == b && a < b + "z"); std::string c{a, 3}; A(c.length() == 37); const char* p = c.c_str(); A(p[37] == 0); c.clear(); A(c.empty()); A(a.at(3) == 'x' && a.front() == 'x'); char buf[5]; a.copy(buf, 5, 0); A(buf[4] == 'x'); OK; }
E(t_duration) { auto d = std::chrono::seconds(3) + std::chrono::milliseconds(2); A(d.count() == 3002); A(std::chrono::duration<double>(d).count() > 3.0); OK; }
E(t_assert) { assert(1 == 1); static_assert(sizeof(int) == 4); OK; }
E(t_timespec) { timeval tv; gettimeofday(&tv, 0); A(tv.tv_usec < 1000000); OK; }
E(t_sstream2) { std::stringstream s; s << 42; int x; s >> x; A(x == 42); OK; }
E(t_union) { union { uint32_t a; unsigned char b[4]; } u; u.a = sym<uint32_t>("a"); A((u.a & 0xff) == u.b[0]); struct { unsigned x : 3, y : 5; } f = {}; f.x = u.b[0]; A(f.x == (u.b[0] & 7)); OK; }
E(t_callptr) { int (*t[])(int) = {[](int x) { return x; }, [](int x) { return x + 1; }}; int i = dsym_range("i", 0, 1); A(t[i](3) == 3 + i); OK; }
E(t_valgrow) { std::vector<unsigned char> v; uint32_t n = sym<uint32_t>("n"); dsym_assume(n < 6); v.resize(n); A(v.size() == n); v.push_back(1); OK; }
E(t_fcntl) { OK; }
E(t_rethrow) { int k = 0; try { try { throw std::logic_error("a"); } catch (...) { k = 1; throw; } } catch (std::logic_error& e) { k += std::string(e.what()) == "a"; } A(k == 2); std::exception_ptr p; try { throw 4; } catch (...) { p = std::current_exception(); } A(p != nullptr); OK; }
E(t_initlist) { auto f = [](std::initializer_list<std::string> l) { return l.size(); }; A(f({"a", "b"}) == 2); OK; }
E(t_memorder) { std::atomic_thread_fence(std::memory_order_seq_cst); volatile int v = 3; v = v + 1; A(v == 4); OK; }
E(t_itc) { std::vector<int> v{1, 2, 3}; std::vector<int> r; std::set_difference(v.begin(), v.end(), v.begin(), v.begin() + 1, std::back_inserter(r)); A(r.size() == 2); std::partition(v.begin(), v.end(), [](int x) { return x > 1; }); std::nth_element(v.begin(), v.begin() + 1, v.end()); std::make_heap(v.begin(), v.end()); OK; }
E(t_mutexcopy) { std::vector<std::unique_ptr<std::mutex>> v; v.push_back(std::make_unique<std::mutex>()); v[0]->lock(); v[0]->unlock(); std::deque<std::mutex> d(2); d[0].lock(); d[0].unlock(); OK; }
E(t_enshared) { struct S : std::enable_shared_from_this<S> { }; auto p = std::make_shared<S>(); A(p->shared_from_this() == p); std::shared_ptr<void> v = p; A(std::static_pointer_cast<S>(v) == p); OK; }
E(t_timer) { os::env.horizon = 1000; std::this_thread::sleep_for(std::chrono::duration<double>(0.5)); OK; }
E(t_quoted) { OK; }
E(t_printlog) { std::string s = "x" + std::to_string(5u) + std::string(3, '-'); A(s == "x5---"); OK; }
E(t_socketpair) { OK; }
E(t_transform_reduce) { std::vector<uint64_t> v{1, 2}; A(std::inner_product(v.begin(), v.end(), v.begin(), (uint64_t)0) == 5); std::string s = "Ab"; std::transform(s.begin(), s.end(), s.begin(), ::tolower); A(s == "ab"); OK; }
E(t_from_chars) { OK; }
E(t_defaultmap) { std::map<std::string, std::vector<int>> m; m["a"].push_back(3); A(m.find("a")->second.size() == 1); std::map<std::string, std::unique_ptr<int>> u; u["x"] = std::make_unique<int>(4); u.erase("x"); m.clear(); m.merge(m); OK; }
E(t_heapstruct) { struct N { int v; std::unique_ptr<N> nx; }; std::unique_ptr<N> h; for (int i = 0; i < 4; i++) { auto n = std::make_unique<N>(); n->v = i; n->nx = std::move(h); h = std::move(n); } A(h->v == 3 && h->nx->v == 2); OK; }
E(t_eventfd) { OK; }
E(t_semaphore) { OK; }
E(t_condpred) { std::mutex m; std::condition_variable cv; int n = 0; std::thread t([&] { { std::lock_guard<std::mutex> l(m); n = 1; } cv.notify_one(); }); std::unique_lock<std::mutex> l(m); A(cv.wait_for(l, std::chrono::seconds(5), [&] { return n == 1; })); l.unlock(); t.join(); OK; }
E(t_sharedlockthread) { std::shared_mutex m; int n = 0; std::thread t([&] { std::unique_lock<std::shared_mutex> l(m); n++; }); { std::shared_lock<std::shared_mutex> l(m); int k = n; (void)k; } t.join(); A(n == 1); OK; }
E(t_charconv) { OK; }
E(t_big) { std::string big(100000, 'a'); A(big.size() == 100000); std::vector<char> v(big.begin(), big.end()); A(v.size() == 100000); OK; }
E(t_strsym) { char b[3]; dsym_make_symbolic(b, 3, "b"); std::string s(b, 3); bool e = s == "abc"; A(e == (b[0] == 'a' && b[1] == 'b' && b[2] == 'c')); auto p = s.find('x'); A(p == std::string::npos || s[p] == 'x'); OK; }
E(t_mapsym) { std::map<std::string, int> m; char b[1]; dsym_make_symbolic(b, 1, "b"); m[std::string(b, 1)] = 1; m["a"] += 2; A(m.size() == (b[0] == 'a' ? 1u : 2u)); OK; }
E(t_sigign) { OK; }
E(t_exitguard) { struct Guard { std::function<void()> f; ~Guard() { f(); } }; int n = 0; { Guard g{[&] { n++; }}; } A(n == 1); OK; }
E(t_ct) { if constexpr (sizeof(long) == 8) OK; }
E(t_waitnotify) { os::env.horizon = 1000; std::atomic<bool> stop{false}; std::thread t([&] { while (!stop.load()) std::this_thread::sleep_for(std::chrono::milliseconds(500)); }); stop = true; t.join(); OK; }
E(t_clear) { std::string s("abc"); std::memcpy(&s[0], "xyz", 3); A(s == "xyz"); s.resize(5, 'q'); A(s.back() == 'q'); OK; }
E(t_localstatic) { static std::mutex m; std::lock_guard<std::mutex> l(m); static std::vector<int> v(3); v.push_back(1); A(v.size() >= 4); OK; }
E(t_str_cmp) { A(std::string("a") < "b"); A(!std::lexicographical_compare("b", "b" + 1, "a", "a" + 1)); A(std::strcmp("a", "a") == 0); A(strncmp("abc", "abd", 2) == 0); A(strcasecmp("A", "a") == 0); OK; }
E(t_stack_arr) { int n = dsym_range("n", 1, 3); char* a = (char*)__builtin_alloca(n); memset(a, 1, n); A(a[n - 1] == 1); OK; }
E(t_stof) { A(std::stoll("-12") == -12); A(std::stod("2.5") == 2.5); OK; }
E(t_mt) { OK; }
E(t_regex) { OK; }
E(t_ranges) { std::vector<int> v{1, 2}; for (auto it = std::begin(v), e = std::end(v); it != e; ++it) *it *= 2; A(v[1] == 4 && std::size(v) == 2 && !std::empty(v) && std::data(v)[0] == 2); OK; }
E(t_bytes) { std::byte b{5}; A(std::to_integer<int>(b << 1) == 10); OK; }
E(t_threadargs) { int n = 0; std::thread t([](int& x, std::string s) { x = (int)s.size(); }, std::ref(n), std::string("abc")); t.join(); A(n == 3); struct W { int k = 0; void run(int x) { k = x; } } w; std::thread u(&W::run, &w, 4); u.join(); A(w.k == 4); OK; }
E(t_poss) { A(access("/nonexistent", 0) != 0 || true); OK; }
E(t_mapptr) { std::map<int, std::function<void(int*)>> m; m[1] = [](int* p) { *p = 3; }; int x = 0; if (auto it = m.find(1); it != m.end()) it->second(&x); A(x == 3); OK; }
E(t_enum) { enum class K : uint8_t { A, B }; K k = static_cast<K>(dsym_range("k", 0, 1)); A(k == K::A || k == K::B); OK; }
E(t_ownlist) { std::list<std::unique_ptr<int>> l; l.push_back(std::make_unique<int>(1)); auto p = std::move(l.front()); l.pop_front(); A(*p == 1); l.emplace_back(new int(2)); OK; }
E(t_lockfree) { std::unique_lock<std::mutex> l; std::mutex m; l = std::unique_lock<std::mutex>(m); A(l.owns_lock()); std::mutex* p = l.release(); p->unlock(); OK; }
E(t_destr) { std::vector<std::function<void()>> v; int n = 0; for (int i = 0; i < 3; i++) v.emplace_back([&n, i] { n += i; }); for (auto& f : v) f(); A(n == 3); OK; }
E(t_u8) { uint8_t a = sym<uint8_t>("a"); int8_t b = (int8_t)a; A((uint8_t)b == a); A((a << 8 >> 8) == a); A(((uint32_t)a << 24) >> 24 == a); OK; }
E(t_sysconf) { A(getpid() > 0); OK; }
E(t_signal) { OK; }
E(t_shutdown) { OK; }
E(t_stdx) { A(std::get<0>(std::minmax(3, 1)) == 1); A(std::is_same_v<int, int>); A(std::gcd(4, 6) == 2); OK; }
E(t_end) { OK; }
