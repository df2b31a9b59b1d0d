#include "c14.hpp"
namespace {
sim::Workload a{"c14/mixed01", "C14", mixed<0, 1>, sim::kAll, 3};
sim::Workload b{"c14/single01", "C14", single<0, 1>, sim::kAll, 1};
sim::Workload c{"c14/arrival01", "C14", arrival<0, 1>, sim::kAll, 1};
sim::Workload d{"c14/owned01", "C14", owned<0, 1>, sim::kAll, 2};
}  // namespace
