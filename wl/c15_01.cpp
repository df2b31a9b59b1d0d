#include "c15.hpp"
namespace {
sim::Workload a{"c15/mixed01", "C15", mixed<0, 1>, sim::kAll, 2};
sim::Workload b{"c15/threaded01", "C15", threaded<0, 1>, sim::kAll, 2};
sim::Workload c{"c15/single01", "C15", single<0, 1>, sim::kAll, 1};
}  // namespace
