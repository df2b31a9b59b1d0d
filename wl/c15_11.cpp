#include "c15.hpp"
namespace {
sim::Workload a{"c15/mixed11", "C15", mixed<1, 1>, sim::kAll, 2};
sim::Workload b{"c15/threaded11", "C15", threaded<1, 1>, sim::kAll, 2};
sim::Workload c{"c15/single11", "C15", single<1, 1>, sim::kAll, 1};
}  // namespace
