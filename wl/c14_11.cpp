#include "c14.hpp"
namespace {
sim::Workload a{"c14/mixed11", "C14", mixed<1, 1>, sim::kAll, 3};
sim::Workload b{"c14/single11", "C14", single<1, 1>, sim::kAll, 1};
sim::Workload c{"c14/arrival11", "C14", arrival<1, 1>, sim::kAll, 1};
sim::Workload d{"c14/owned11", "C14", owned<1, 1>, sim::kAll, 2};
}  // namespace
