#include "c15.hpp"
namespace {
sim::Workload a{"c15/mixed00", "C15", mixed<0, 0>, sim::kAll, 2};
sim::Workload b{"c15/threaded00", "C15", threaded<0, 0>, sim::kAll, 2};
sim::Workload c{"c15/single00", "C15", single<0, 0>, sim::kAll, 1};
}  // namespace
