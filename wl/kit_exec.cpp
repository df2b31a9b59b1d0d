// Instrumented: harness executors built on std::mutex / std::condition_variable.
#include "kit.hpp"

#include <yaclib/exe/strand.hpp>

namespace kit {

struct Proxy::Wrap final : yaclib::Job {
  ProxyPtr p;
  yaclib::Job* job;
  // the executor gets the link exactly as the library left it in the job, and the job gets it back as the executor left it:
  // lists have to work with nodes that were members of other lists before
  Wrap(Proxy* pr, yaclib::Job* j) : p{pr}, job{j} { next = j->next; }
  void Call() noexcept override {
    Proxy* q = p.Get();
    q->_called.add(1);
    push_tag(q->_tag);
    auto keep = std::move(p);
    auto* j = job;
    {
      sim::HostScope h;
      j->next = next;
      delete this;
    }
    j->Call();
    pop_tag();
  }
  void Drop() noexcept override {
    Proxy* q = p.Get();
    q->_dropped.add(1);
    auto keep = std::move(p);
    auto* j = job;
    {
      sim::HostScope h;
      j->next = next;
      delete this;
    }
    j->Drop();
  }
};

Proxy::Proxy(int tag, yaclib::IExecutorPtr inner, int accept) : _tag{tag}, _inner{std::move(inner)}, _left{accept} {
  track(tExec, 1);
}
Proxy::~Proxy() noexcept { track(tExec, -1); }
void Proxy::IncRef() noexcept {
  SIM_CHECK(_refs.get() > 0, "executor-dead", "a reference is taken on an executor that was already released");
  _refs.add(1);
}
void Proxy::DecRef() noexcept {
  const int n = _refs.add(-1);
  SIM_CHECK(n >= 0, "executor-over-release", "an executor is released more often than it was acquired");
  if (n == 0) {
    auto inner = std::move(_inner);
    {
      sim::HostScope h;
      delete this;
    }
  }
}
bool Proxy::Alive() const noexcept { return _left.get() != 0 && _inner->Alive(); }
void Proxy::Submit(yaclib::Job& job) noexcept {
  _submitted.add(1);
  const int left = _left.get();
  if (left == 0) {
    _refused.add(1);
    _dropped.add(1);
    sim::count(sim::kReject);
    job.Drop();
    return;
  }
  if (left > 0) _left.set(left - 1);
  Wrap* w;
  {
    sim::HostScope h;
    w = new Wrap{this, &job};
  }
  _inner->Submit(*w);
}

Chaos::Chaos(int threads, bool fifo) : _fifo{fifo} {
  track(tExec, 1);
  _q.reserve(128);
  for (int i = 0; i < threads; ++i) _t.emplace_back([this] { Loop(); });
}
Chaos::~Chaos() noexcept { track(tExec, -1); }
bool Chaos::Alive() const noexcept {
  std::lock_guard l{_m};
  return !_stop;
}
void Chaos::Submit(yaclib::Job& job) noexcept {
  {
    std::lock_guard l{_m};
    if (!_stop) {
      _q.push_back(&job);
      _cv.notify_one();
      return;
    }
  }
  job.Drop();
}
void Chaos::Loop() {
  std::unique_lock l{_m};
  for (;;) {
    while (!_q.empty()) {
      std::size_t i = 0;
      if (!_fifo && _q.size() > 1) i = sim::choose(u32(_q.size()), sim::kPick);
      auto* j = _q[i];
      _q.erase(_q.begin() + std::ptrdiff_t(i));
      const bool drop = _drop;
      l.unlock();
      if (drop) {
        j->Drop();
      } else {
        j->Call();
      }
      l.lock();
    }
    if (_stop) return;
    _cv.wait(l);
  }
}
void Chaos::Stop(bool drop_queued) {
  std::lock_guard l{_m};
  _stop = true;
  _drop = _drop || drop_queued;
  _cv.notify_all();
}
void Chaos::Join() {
  for (auto& t : _t) {
    if (t.joinable()) t.join();
  }
}

yaclib::IExecutorPtr Execs::raw(int kind) {
  switch (kind) {
    case xPool1:
    case xPool2:
    case xPool3: {
      auto p = yaclib::MakeFairThreadPool(kind == xPool1 ? 1 : kind == xPool2 ? 2 : 3);
      _pools.push_back(p);
      return p;
    }
    case xChaos: {
      auto c = yaclib::MakeShared<Chaos>(1, 2, false);
      _chaos.push_back(c);
      return c;
    }
    case xInline:
      return yaclib::IExecutorPtr{&yaclib::MakeInline()};
    case xStoppedInline:
      return yaclib::IExecutorPtr{&yaclib::MakeInline(yaclib::StopTag{})};
    case xStrandPool:
      return yaclib::MakeStrand(raw(xPool2));
    case xStrandStrand:
      return yaclib::MakeStrand(yaclib::MakeStrand(raw(xPool2)));
    case xStrandInline:
      return yaclib::MakeStrand(raw(xInline));
    case xStrandChaos:
      return yaclib::MakeStrand(raw(xChaos));
  }
  return nullptr;
}
ProxyPtr Execs::make(int kind, int accept) {
  const int tag = int(_proxies.size());
  _kinds.push_back(kind);
  auto inner = raw(kind);
  Proxy* proxy;
  {
    sim::HostScope h;
    proxy = new Proxy{tag, std::move(inner), accept};
  }
  ProxyPtr p{yaclib::NoRefTag{}, proxy};
  _proxies.push_back(p);
  return p;
}
ProxyPtr Execs::random(u32 mask, int accept) {
  int ks[xKinds];
  u32 n = 0;
  for (int k = 0; k < xKinds; ++k) {
    if (mask & bit(k)) ks[n++] = k;
  }
  return make(ks[sim::gen(n)], accept);
}
const char* Execs::name(int tag) const {
  static const char* const n[] = {"pool1", "pool2", "pool3", "chaos", "inline", "strand/pool", "strand/strand/pool", "strand/inline", "stopped", "strand/chaos"};
  return tag >= 0 && tag < int(_kinds.size()) ? n[_kinds[std::size_t(tag)]] : "none";
}
void Execs::stop_pool(int i, int how) {
  auto& p = _pools[std::size_t(i)];
  if (how == 0) {
    p->Stop();
  } else if (how == 1) {
    p->SoftStop();
  } else {
    p->HardStop();
  }
}
void Execs::shutdown() {
  // work on one executor may feed another: stop them in creation order is not enough, so let the owner quiesce first
  for (auto& p : _pools) {
    p->Stop();
  }
  for (auto& c : _chaos) {
    c->Stop(false);
  }
  for (auto& p : _pools) {
    p->Wait();
  }
  for (auto& c : _chaos) {
    c->Join();
  }
  _pools.clear();
  _chaos.clear();
  _proxies.clear();
}
Execs::~Execs() { shutdown(); }

void pause(int max) {
  const u32 n = sim::gen(u32(max) + 1);
  for (u32 i = 0; i < n; ++i) sim::yield();
}

}  // namespace kit
