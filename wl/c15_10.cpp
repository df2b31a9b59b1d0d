#include "c15.hpp"
namespace {
sim::Workload a{"c15/mixed10", "C15", mixed<1, 0>, sim::kAll, 2};
sim::Workload b{"c15/threaded10", "C15", threaded<1, 0>, sim::kAll, 2};
sim::Workload c{"c15/single10", "C15", single<1, 0>, sim::kAll, 1};
}  // namespace
