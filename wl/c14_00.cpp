#include "c14.hpp"
namespace {
sim::Workload a{"c14/mixed00", "C14", mixed<0, 0>, sim::kAll, 3};
sim::Workload b{"c14/single00", "C14", single<0, 0>, sim::kAll, 1};
sim::Workload c{"c14/arrival00", "C14", arrival<0, 0>, sim::kAll, 1};
sim::Workload d{"c14/owned00", "C14", owned<0, 0>, sim::kAll, 2};
}  // namespace
