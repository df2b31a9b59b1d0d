// Programs: every fiber (or the only thread) runs a generated sequence of operations on its own atomic.
#include "wl/c19.hpp"

#include <vector>

namespace c19 {

namespace {
u32 nops, nspurious;
}

void wrong(const char* type, const char* op, const char* what, u64 got, u64 want, u64 before, u64 arg) {
  sim::fail(sim::kOracle, "atomic", "atomic<%s>: %s %s %llx, std::atomic: %llx (value before %llx, operand %llx)", type, op, what, (unsigned long long)got, (unsigned long long)want, (unsigned long long)before, (unsigned long long)arg);
}

void op_done(const char* op, u64 r, bool spurious) {
  ++nops;
  if (spurious) {
    ++nspurious;
    sim::probe("compare_exchange_weak_failed_spuriously");
  }
  sim::ev(1, r, spurious);
  sim::log("%s -> %llx%s", op, (unsigned long long)r, spurious ? " (spurious)" : "");
}

void one() {
  const Type t = genp(2, 5) ? type_other(gen(kOthers)) : type_int(gen(kInts));
  sim::log("atomic<%s>", t.name);
  t.fn();
}

void body() {
#if YACLIB_FAULT == 2
  const u32 n = gen(3);
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < n; ++i) ts.emplace_back([] { one(); });
  one();
  for (auto& t : ts) t.join();
#else
  const u32 n = 1 + gen(2);
  for (u32 i = 0; i < n; ++i) one();
#endif
}

void run() {
  nops = nspurious = 0;
  fk::Config c = fk::gen_config(!genp(1, 4));
  fk::run(c, body);
  if (nops > 2) sim::fib::set_nontrivial();
}

const sim::Workload w{"c19/ops", "C19", run, sim::kAll, 1, 200000};

}  // namespace c19
