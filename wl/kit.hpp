// Building blocks shared by all workloads: tracked payloads, outcome ledger, executors.
#pragma once
#include "../simrt/sim.hpp"

#include <yaclib/exe/executor.hpp>
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/job.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
#include <yaclib/util/helper.hpp>
#include <yaclib/util/result.hpp>

#include <condition_variable>
#include <exception>
#include <functional>
#include <iterator>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>

namespace kit {

using sim::u32;
using sim::u64;

// ---- bookkeeping that the simulator does not see (kit.cpp, not instrumented) ------------------------
enum Track { tVal, tTok, tErr, tFrame, tExec, tTracks };
void track(Track t, int delta);
int live(Track t);
void check_no_live(const char* where);  // every tracked object is gone (class oracle)

// ---- payloads ------------------------------------------------------------------------------------------
constexpr int kMoved = -777;
constexpr u32 kMagic = 0xA11CE5ED;
constexpr u32 kDead = 0xDEADBEA7;

// A value with heap storage: written by the producer through plain stores, read by observers through plain loads.
class Val {
 public:
  Val() : Val{0} {}
  explicit Val(int id) : _id{id}, _inv{~id}, _magic{kMagic}, _blob{new int(id)} { track(tVal, 1); }
  Val(const Val& o) : _id{o.checked()}, _inv{~_id}, _magic{kMagic}, _blob{new int(_id)} { track(tVal, 1); }
  Val(Val&& o) noexcept : _id{o.checked()}, _inv{~_id}, _magic{kMagic}, _blob{std::exchange(o._blob, nullptr)} {
    o._id = kMoved;
    o._inv = ~kMoved;
    track(tVal, 1);
  }
  Val& operator=(const Val& o) {
    Val t{o};
    std::swap(_id, t._id);
    std::swap(_inv, t._inv);
    std::swap(_blob, t._blob);
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    Val t{std::move(o)};
    std::swap(_id, t._id);
    std::swap(_inv, t._inv);
    std::swap(_blob, t._blob);
    return *this;
  }
  ~Val() {
    SIM_CHECK(_magic == kMagic, "value-destroyed-twice", "a stored value is destroyed twice (id %d)", _id);
    _magic = kDead;
    delete _blob;
    track(tVal, -1);
  }
  // the identity, with integrity checks; kMoved if moved from
  int id() const {
    SIM_CHECK(_magic == kMagic, "dead-value", "a destroyed or never constructed value is read");
    SIM_CHECK(_inv == ~_id, "torn-value", "a torn value is read");
    if (_id != kMoved) {
      SIM_CHECK(_blob != nullptr && *_blob == _id, "torn-value", "value %d has a foreign body", _id);
    }
    return _id;
  }
  bool operator==(const Val& o) const { return id() == o.id(); }

 private:
  int checked() const {
    SIM_CHECK(_magic == kMagic, "dead-value", "a destroyed or never constructed value is copied or moved");
    return _id;
  }
  int _id;
  int _inv;
  u32 _magic;
  int* _blob;
};

// move-only sibling
class MVal {
 public:
  MVal() : MVal{0} {}
  explicit MVal(int id) : _v{id} {}
  MVal(MVal&&) noexcept = default;
  MVal& operator=(MVal&&) noexcept = default;
  int id() const { return _v.id(); }

 private:
  Val _v;
};

struct Err {
  int code;
  explicit Err(int c) : code{c} { track(tErr, 1); }
  Err(yaclib::StopTag) : code{-1} { track(tErr, 1); }
  Err(const Err& o) noexcept : code{o.code} { track(tErr, 1); }
  Err(Err&& o) noexcept : code{std::exchange(o.code, kMoved)} { track(tErr, 1); }
  Err& operator=(const Err&) noexcept = default;
  Err& operator=(Err&& o) noexcept {
    const int c = std::exchange(o.code, kMoved);
    code = c;
    return *this;
  }
  ~Err() { track(tErr, -1); }
  static const char* What() noexcept { return "Err"; }
  bool operator==(const Err& o) const { return code == o.code; }
};

struct Boom {
  int id;
};

inline std::exception_ptr boom(int id) { return std::make_exception_ptr(Boom{id}); }
int boom_id(const std::exception_ptr& p);  // -2 when it is something else

// Token captured by callbacks: live count, double destruction.
class Tok {
 public:
  explicit Tok(int id = 0) : _id{id}, _magic{kMagic}, _blob{new int(id)} { track(tTok, 1); }
  Tok(Tok&& o) noexcept : _id{o._id}, _magic{kMagic}, _blob{std::exchange(o._blob, nullptr)} {
    o.check();
    track(tTok, 1);
  }
  Tok(const Tok& o) : _id{o._id}, _magic{kMagic}, _blob{new int(o._id)} {
    o.check();
    track(tTok, 1);
  }
  Tok& operator=(Tok&&) = delete;
  ~Tok() {
    SIM_CHECK(_magic == kMagic, "functor-destroyed-twice", "a callback capture is destroyed twice (id %d)", _id);
    _magic = kDead;
    delete _blob;
    track(tTok, -1);
  }
  void use() const {  // the callback reads its captures
    check();
    SIM_CHECK(_blob != nullptr && *_blob == _id, "functor-dead", "capture %d used after it was moved or destroyed", _id);
  }

 private:
  void check() const { SIM_CHECK(_magic == kMagic, "functor-dead", "a destroyed callback capture is used"); }
  int _id;
  u32 _magic;
  int* _blob;
};

// ---- outcomes -----------------------------------------------------------------------------------------
struct Out {
  char k = '?';  // V value, E error, X exception, M empty
  int id = 0;
  bool operator==(const Out& o) const { return k == o.k && id == o.id; }
  bool operator!=(const Out& o) const { return !(*this == o); }
};
constexpr int kStop = -1;
inline Out value(int id) { return {'V', id}; }
inline Out error(int id) { return {'E', id}; }
inline Out except(int id) { return {'X', id}; }
inline Out stopped() { return {'E', kStop}; }

template <typename T>
struct Pay;  // how to make / read payloads
template <>
struct Pay<Val> {
  static Val make(int id) { return Val{id}; }
  static int id(const Val& v) { return v.id(); }
};
template <>
struct Pay<MVal> {
  static MVal make(int id) { return MVal{id}; }
  static int id(const MVal& v) { return v.id(); }
};
template <>
struct Pay<int> {
  static int make(int id) { return id; }
  static int id(int v) { return v; }
};
template <>
struct Pay<yaclib::Unit> {
  static yaclib::Unit make(int) { return {}; }
  static int id(const yaclib::Unit&) { return 0; }
};
template <>
struct Pay<void> {
  static yaclib::Unit make(int) { return {}; }
  static int id(const yaclib::Unit&) { return 0; }
};
template <typename E>
struct PayE;
template <>
struct PayE<Err> {
  static Err make(int c) { return Err{c}; }
  static int id(const Err& e) { return e.code; }
};
template <>
struct PayE<yaclib::StopError> {
  static yaclib::StopError make(int) { return yaclib::StopError{yaclib::StopTag{}}; }
  static int id(const yaclib::StopError&) { return kStop; }
};

template <typename V, typename E>
Out out(const yaclib::Result<V, E>& r) {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return {'V', Pay<V>::id(r.Value())};
    case yaclib::ResultState::Error:
      return {'E', PayE<E>::id(r.Error())};
    case yaclib::ResultState::Exception:
      return {'X', boom_id(r.Exception())};
    case yaclib::ResultState::Empty:
      return {'M', 0};
  }
  return {};
}
template <typename V, typename E>
yaclib::Result<V, E> make_result(Out o) {
  switch (o.k) {
    case 'V':
      return yaclib::Result<V, E>{std::in_place, Pay<V>::make(o.id)};
    case 'E':
      return yaclib::Result<V, E>{PayE<E>::make(o.id)};
    case 'X':
      return yaclib::Result<V, E>{boom(o.id)};
    default:
      return yaclib::Result<V, E>{yaclib::StopTag{}};
  }
}
// value identity as the type can express it
template <typename V, typename E>
Out norm(Out o) {
  if constexpr (std::is_void_v<V>) {
    if (o.k == 'V') o.id = 0;
  }
  if constexpr (std::is_same_v<E, yaclib::StopError>) {
    if (o.k == 'E') o.id = kStop;
  }
  return o;
}

// ---- observations ---------------------------------------------------------------------------------------
// A slot records what one observer saw; thread-safe in the simulator's eyes (host bookkeeping).
struct Seen {
  int n = 0;
  Out last;
  u64 step = 0;
  int fiber = -1;
};
class Slots {
 public:
  explicit Slots(int n);
  ~Slots();
  void see(int slot, Out o);
  int count(int slot) const;
  Out last(int slot) const;
  u64 step(int slot) const;
  int fiber(int slot) const;

 private:
  Seen* _s;
  int _n;
};
// host-side flag / counter
class HostInt {
 public:
  explicit HostInt(int v = 0);
  int get() const;
  void set(int v);
  int add(int v);  // returns the new value

 private:
  int _v;
};

// ---- executors -----------------------------------------------------------------------------------------
// What is running on this fiber: stack of executor tags
void push_tag(int tag);
void pop_tag();
int top_tag();          // -1: none
bool has_tag(int tag);

// Forwards to an inner executor, tags the execution, counts, may refuse from the k-th job on.
class Proxy : public yaclib::IExecutor {
 public:
  Proxy(int tag, yaclib::IExecutorPtr inner, int accept = -1);
  ~Proxy() noexcept override;
  Type Tag() const noexcept override { return Type::Custom; }
  bool Alive() const noexcept override;
  void Submit(yaclib::Job& job) noexcept override;
  // reference counting on the host side: the proxy itself must not add happens-before edges
  void IncRef() noexcept override;
  void DecRef() noexcept override;
  void Refuse() { _left.set(0); }  // from now on
  int submitted() const { return _submitted.get(); }
  int called() const { return _called.get(); }
  int dropped() const { return _dropped.get(); }
  int refused() const { return _refused.get(); }
  int tag() const { return _tag; }

 private:
  struct Wrap;
  int _tag;
  yaclib::IExecutorPtr _inner;
  HostInt _refs{1};
  HostInt _left;  // -1: unlimited
  HostInt _submitted, _called, _dropped, _refused;
};
using ProxyPtr = yaclib::IntrusivePtr<Proxy>;

// A small thread pool of ours: any legal executor may reorder, so it picks jobs in an order chosen by the simulator.
class Chaos : public yaclib::IExecutor {
 public:
  Chaos(int threads, bool fifo);
  ~Chaos() noexcept override;
  Type Tag() const noexcept override { return Type::Custom; }
  bool Alive() const noexcept override;
  void Submit(yaclib::Job& job) noexcept override;
  void Stop(bool drop_queued);
  void Join();

 private:
  void Loop();
  mutable std::mutex _m;
  std::condition_variable _cv;
  std::vector<yaclib::Job*> _q;
  std::vector<std::thread> _t;
  bool _stop = false;
  bool _drop = false;
  bool _fifo;
};
using ChaosPtr = yaclib::IntrusivePtr<Chaos>;

// How many of something: mostly few, now and then many
inline u32 amount(u32 few, u32 many) { return sim::genp(1, 16) ? few + sim::gen(many - few + 1) : 1 + sim::gen(few); }

// A set of executors for one run.
enum ExecKind { xPool1, xPool2, xPool3, xChaos, xInline, xStrandPool, xStrandStrand, xStrandInline, xStoppedInline, xStrandChaos, xKinds };
class Execs {
 public:
  Execs() = default;
  ~Execs();
  // kinds: subset given as bitmask; returns a tagged proxy
  ProxyPtr make(int kind, int accept = -1);
  ProxyPtr random(u32 kinds_mask, int accept = -1);
  void stop_pool(int i, int how);  // 0 Stop 1 SoftStop 2 HardStop
  int pools() const { return int(_pools.size()); }
  void shutdown();  // Stop + Wait on every pool
  Proxy* proxy(int tag) { return tag >= 0 && tag < int(_proxies.size()) ? _proxies[std::size_t(tag)].Get() : nullptr; }
  int count() const { return int(_proxies.size()); }
  const char* name(int tag) const;

 private:
  yaclib::IExecutorPtr raw(int kind);
  std::vector<yaclib::IntrusivePtr<yaclib::FairThreadPool>> _pools;
  std::vector<ChaosPtr> _chaos;
  std::vector<ProxyPtr> _proxies;
  std::vector<int> _kinds;
};

constexpr u32 bit(int k) { return 1u << k; }
constexpr u32 kLiveKinds = bit(xPool1) | bit(xPool2) | bit(xChaos) | bit(xInline) | bit(xStrandPool) | bit(xStrandStrand) | bit(xStrandInline) | bit(xStrandChaos);
constexpr u32 kThreaded = bit(xPool1) | bit(xPool2) | bit(xChaos) | bit(xStrandPool) | bit(xStrandChaos) | bit(xStrandStrand);
constexpr u32 kAllKinds = kLiveKinds | bit(xStoppedInline) | bit(xPool3);

// Runs functions on simulated threads and joins them at scope exit.
class Threads {
 public:
  template <typename F>
  void go(F&& f) {
    _t.emplace_back(std::forward<F>(f));
  }
  void join() {
    for (auto& t : _t) {
      if (t.joinable()) t.join();
    }
    _t.clear();
  }
  ~Threads() { join(); }

 private:
  std::vector<std::thread> _t;
};

// random delay in steps: lets the schedule move on
void pause(int max);

// A range whose elements are anywhere: a random access iterator over pointers to them.
template <typename T>
class Via {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = std::remove_const_t<T>;
  using difference_type = std::ptrdiff_t;
  using pointer = T*;
  using reference = T&;
  Via() = default;
  explicit Via(T* const* p) : _p{p} {}
  T& operator*() const { return **_p; }
  T* operator->() const { return *_p; }
  T& operator[](difference_type i) const { return *_p[i]; }
  Via& operator++() { return ++_p, *this; }
  Via operator++(int) { return Via{_p++}; }
  Via& operator--() { return --_p, *this; }
  Via operator--(int) { return Via{_p--}; }
  Via& operator+=(difference_type i) { return _p += i, *this; }
  Via& operator-=(difference_type i) { return _p -= i, *this; }
  friend Via operator+(Via a, difference_type i) { return a += i; }
  friend Via operator+(difference_type i, Via a) { return a += i; }
  friend Via operator-(Via a, difference_type i) { return a -= i; }
  friend difference_type operator-(Via a, Via b) { return a._p - b._p; }
  friend bool operator==(Via a, Via b) { return a._p == b._p; }
  friend bool operator!=(Via a, Via b) { return a._p != b._p; }
  friend bool operator<(Via a, Via b) { return a._p < b._p; }
  friend bool operator>(Via a, Via b) { return a._p > b._p; }
  friend bool operator<=(Via a, Via b) { return a._p <= b._p; }
  friend bool operator>=(Via a, Via b) { return a._p >= b._p; }

 private:
  T* const* _p = nullptr;
};
// the elements of v, last one first
template <typename T>
class Backwards {
 public:
  template <typename V>
  explicit Backwards(V& v, std::size_t from = 0, std::size_t count = ~std::size_t(0)) {
    if (count > v.size() - from) count = v.size() - from;
    for (; count != 0; --count) _p.push_back(&v[from + count - 1]);
  }
  Via<T> begin() const { return Via<T>{_p.data()}; }
  Via<T> end() const { return Via<T>{_p.data() + _p.size()}; }
  std::size_t size() const { return _p.size(); }

 private:
  std::vector<T*> _p;
};

// One-shot host-visible event with happens-before (std::mutex/cv inside); used to wait for detached work
class Latch {
 public:
  explicit Latch(int n) : _n{n} {}
  Latch(const Latch&) = delete;
  void done() {
    std::lock_guard l{_m};
    if (--_n <= 0) _cv.notify_all();
  }
  void wait() {
    std::unique_lock l{_m};
    _cv.wait(l, [&] { return _n <= 0; });
  }

 private:
  std::mutex _m;
  std::condition_variable _cv;
  int _n;
};

}  // namespace kit
