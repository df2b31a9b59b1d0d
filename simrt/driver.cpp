// Driver: search | replay | minimize | list | hashes
#include "rt.hpp"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace sim;

namespace {

Record* rec;           // filled by the runtime (shared mapping, survives a child's death)
const char* out_file;  // where record_exit writes
bool quiet_exit;

double wall() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

void write_file(const char* path, const Record& r) {
  std::FILE* f = std::fopen(path, "w");
  if (!f) _exit(3);
  std::fprintf(f, "workload %s\nseed %llu\nclass %s\nkey %s\n", r.workload, (unsigned long long)r.seed, rt_cls_name(r.cls), r.key);
  std::string m = r.msg;
  for (char& c : m) {
    if (c == '\n') c = ' ';
  }
  std::fprintf(f, "msg %s\nhash %016llx\nsteps %llu\nswitches %llu\nthreads %d\n", m.c_str(), (unsigned long long)r.hash,
               (unsigned long long)r.steps, (unsigned long long)r.switches, r.fibers);
  // the streams of a very long run do not fit: it is generated again from its seed
  if (r.overflow) std::fprintf(f, "overflow 1\n");
  std::fprintf(f, "gen");
  for (u32 i = 0; i < r.ngen; ++i) std::fprintf(f, " %u", r.gen[i]);
  std::fprintf(f, "\ndev");
  for (u32 i = 0; i < r.ndev; ++i) std::fprintf(f, " %u:%u", r.dev[i].k, r.dev[i].v);
  std::fprintf(f, "\nend\n");
  std::fclose(f);
}

bool read_file(const char* path, Record& r) {
  std::FILE* f = std::fopen(path, "r");
  if (!f) return false;
  std::memset(&r, 0, offsetof(Record, gen));
  char* line = nullptr;
  std::size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    char* nl = std::strchr(line, '\n');
    if (nl) *nl = 0;
    char* sp = std::strchr(line, ' ');
    std::string k = sp ? std::string(line, sp) : std::string(line);
    char* v = sp ? sp + 1 : line + std::strlen(line);
    if (k == "workload") {
      std::snprintf(r.workload, sizeof r.workload, "%s", v);
    } else if (k == "seed") {
      r.seed = std::strtoull(v, nullptr, 10);
    } else if (k == "class") {
      for (u32 c = 1; c <= kCrash; c <<= 1) {
        if (!std::strcmp(rt_cls_name(c), v)) r.cls = c;
      }
    } else if (k == "key") {
      std::snprintf(r.key, sizeof r.key, "%s", v);
    } else if (k == "msg") {
      std::snprintf(r.msg, sizeof r.msg, "%s", v);
    } else if (k == "hash") {
      r.hash = std::strtoull(v, nullptr, 16);
    } else if (k == "overflow") {
      r.overflow = 1;
    } else if (k == "gen") {
      for (char* t = std::strtok(v, " "); t; t = std::strtok(nullptr, " ")) r.gen[r.ngen++] = u32(std::atoi(t));
    } else if (k == "dev") {
      for (char* t = std::strtok(v, " "); t; t = std::strtok(nullptr, " ")) {
        unsigned a, b;
        if (std::sscanf(t, "%u:%u", &a, &b) == 2) r.dev[r.ndev++] = {a, b};
      }
    }
  }
  std::free(line);
  std::fclose(f);
  r.gen_fixed = r.sched_fixed = r.overflow ? 0 : 1;
  r.sched_seed = 0;
  r.failed = 1;
  return true;
}

Workload* find(const char* name) {
  for (Workload* w = workloads(); w; w = w->next) {
    if (!std::strcmp(w->name, name)) return w;
  }
  return nullptr;
}

std::vector<Workload*> select(const char* pattern) {
  // comma separated prefixes, "all"
  std::vector<Workload*> r;
  std::vector<Workload*> allw;
  for (Workload* w = workloads(); w; w = w->next) allw.push_back(w);
  std::sort(allw.begin(), allw.end(), [](Workload* a, Workload* b) { return std::strcmp(a->name, b->name) < 0; });
  std::string p = std::string(pattern) + ",";
  for (Workload* w : allw) {
    std::size_t s = 0;
    for (std::size_t e; (e = p.find(',', s)) != std::string::npos; s = e + 1) {
      std::string q = p.substr(s, e - s);
      if (q == "all" || std::string(w->name).rfind(q, 0) == 0) {
        r.push_back(w);
        break;
      }
    }
  }
  return r;
}

u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct HashSet {  // open addressing, host memory from mmap so the snapshot/restore of globals does not matter
  u64* t;
  u64 cap, n;
  explicit HashSet(u64 c) : cap{c}, n{0} {
    t = (u64*)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  bool add(u64 h) {
    if (h == 0) h = 1;
    if (n * 2 > cap) return false;
    u64 i = mix(h) & (cap - 1);
    while (t[i]) {
      if (t[i] == h) return false;
      i = (i + 1) & (cap - 1);
    }
    t[i] = h;
    ++n;
    return true;
  }
};

const char* arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 1; i + 1 < argc; ++i) {
    if (!std::strcmp(argv[i], name)) return argv[i + 1];
  }
  return def;
}
bool has(int argc, char** argv, const char* name) {
  for (int i = 1; i < argc; ++i) {
    if (!std::strcmp(argv[i], name)) return true;
  }
  return false;
}

// run one attempt in a forked child; returns true if the same class of violation appears; the record is in *rec
bool attempt(const Workload* w, const Record& in, u32 cls, const char* key) {
  rec->failed = 0;
  std::fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    quiet_exit = true;
    rt_run(w, in.seed, &in, false);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 10 && rec->failed && rec->cls == cls && !std::strcmp(rec->key, key);
}

Record* shared_record() {
  return (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

int minimize(const char* file, const char* out, double budget) {
  Record* best = shared_record();
  Record* tr = shared_record();
  if (!read_file(file, *best)) return 3;
  Workload* w = find(best->workload);
  if (!w) return 3;
  const u32 cls = best->cls;
  char key[64];
  std::snprintf(key, sizeof key, "%s", best->key);
  const double end = wall() + budget;
  u64 tries = 0;
  auto adopt = [&]() {  // *rec holds a failing run: take its streams
    const u64 seed = best->seed;
    std::memcpy(best, rec, sizeof(Record));
    best->seed = seed;
    best->gen_fixed = best->sched_fixed = 1;
  };
  if (!attempt(w, *best, cls, key)) return 4;
  adopt();
  auto try_rec = [&](Record* t) {
    ++tries;
    if (wall() > end) return false;
    if (attempt(w, *t, cls, key)) {
      adopt();
      return true;
    }
    return false;
  };
  auto research = [&](Record* t, u32 n) {  // same program, other schedules
    for (u32 i = 1; i <= n && wall() < end; ++i) {
      t->sched_fixed = 0;
      t->sched_seed = i;
      ++tries;
      if (attempt(w, *t, cls, key) && !rec->overflow) {
        adopt();
        return true;
      }
    }
    t->sched_fixed = 1;
    return false;
  };
  auto ddmin_dev = [&]() {
    bool any = false;
    for (u32 chunk = std::max(1u, best->ndev / 2); chunk >= 1; chunk /= 2) {
      for (u32 i = 0; i < best->ndev;) {
        std::memcpy(tr, best, sizeof(Record));
        const u32 c = std::min(chunk, tr->ndev - i);
        std::memmove(tr->dev + i, tr->dev + i + c, (tr->ndev - i - c) * sizeof(Dev));
        tr->ndev -= c;
        const u32 before = best->ndev;
        if (try_rec(tr) && best->ndev < before) {
          any = true;
        } else {
          i += chunk;
        }
        if (wall() > end) return any;
      }
      if (chunk == 1) break;
    }
    return any;
  };
  auto shrink_gen = [&]() {
    bool any = false;
    // drop tail
    for (u32 cut = best->ngen; cut >= 1; cut /= 2) {
      std::memcpy(tr, best, sizeof(Record));
      if (tr->ngen > 4 + cut) {
        tr->ngen -= cut;
        // zeros at the end are implicit
        if (try_rec(tr) || research(tr, 20)) any = true;
      }
      if (wall() > end) return any;
    }
    for (u32 i = 0; i < best->ngen; ++i) {
      if (best->gen[i] == 0) continue;
      std::memcpy(tr, best, sizeof(Record));
      const u32 old = tr->gen[i];
      tr->gen[i] = 0;
      if (try_rec(tr) || research(tr, 12)) {
        any = true;
        continue;
      }
      if (old > 1) {
        std::memcpy(tr, best, sizeof(Record));
        tr->gen[i] = old / 2;
        if (try_rec(tr)) {
          any = true;
          continue;
        }
        std::memcpy(tr, best, sizeof(Record));
        tr->gen[i] = old - 1;
        if (try_rec(tr)) any = true;
      }
      if (wall() > end) return any;
    }
    return any;
  };
  ddmin_dev();
  for (int round = 0; round < 4 && wall() < end; ++round) {
    const bool a = shrink_gen();
    const bool b = ddmin_dev();
    if (!a && !b) break;
  }
  while (best->ngen > 0 && best->gen[best->ngen - 1] == 0) --best->ngen;
  // settle: the file must reproduce itself
  if (!attempt(w, *best, cls, key)) return 4;
  {
    const u32 ng = best->ngen;
    adopt();
    best->ngen = std::min(best->ngen, kMaxGen);
    (void)ng;
  }
  write_file(out, *best);
  std::printf("minimized tries=%llu gen=%u dev=%u\n", (unsigned long long)tries, best->ngen, best->ndev);
  return 0;
}

}  // namespace

void sim::record_exit() {
  if (!quiet_exit) {
    if (out_file) write_file(out_file, *rec);
    std::printf("violation class=%s key=%s hash=%016llx steps=%llu workload=%s: %s\n", rt_cls_name(rec->cls), rec->key, (unsigned long long)rec->hash, (unsigned long long)rec->steps, rec->workload, rec->msg);
    std::fflush(stdout);
  }
  _exit(10);
}

int main(int argc, char** argv) {
  // code that reads memory it must not read sees the same addresses in every process, where the system lets us
  const int pers = personality(0xffffffff);
  if (std::getenv("SIM_ASLR") == nullptr && pers != -1 && (pers & ADDR_NO_RANDOMIZE) == 0 && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE) != 0) execv("/proc/self/exe", argv);
  if (argc < 2) {
    std::fprintf(stderr, "usage: list|search|replay|minimize|hashes\n");
    return 3;
  }
  rec = shared_record();
  const std::string mode = argv[1];
  // keep driver state out of the globals snapshot: set everything before rt_init
  out_file = arg(argc, argv, "--out", nullptr);
  std::string outs = out_file ? out_file : "";
  rt_init(rec);
  if (mode == "list") {
    for (Workload* w : select("all")) std::printf("%s %s %u\n", w->name, w->property, w->weight);
    return 0;
  }
  if (mode == "search") {
    // one worker process: runs seeds base+index*stride..., stops at the first violation or when time is over
    const auto ws = select(arg(argc, argv, "--wl", "all"));
    if (ws.empty()) return 3;
    const u64 base = std::strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    const u64 first = std::strtoull(arg(argc, argv, "--first", "0"), nullptr, 10);
    const u64 stride = std::strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
    const u64 maxn = std::strtoull(arg(argc, argv, "--count", "18446744073709551615"), nullptr, 10);
    const double budget = std::atof(arg(argc, argv, "--time", "1e9"));
    const char* stats = arg(argc, argv, "--stats", nullptr);
    const char* hashes = arg(argc, argv, "--hashes", nullptr);
    const char* cursor = arg(argc, argv, "--cursor", nullptr);
    u64 wtotal = 0;
    for (Workload* w : ws) wtotal += w->weight;
    // progress is visible to the parent even if we die: shared file mapping
    struct Cur {
      u64 idx, runs, steps, switches, sim_ns, fibers, fair, distinct, nontrivial;
      u64 faults[kFaultKinds];
      u64 per_wl[64];
      u32 nprobes;
      char pname[128][48];
      u64 pcount[128];
    };
    Cur* cur = nullptr;
    if (cursor) {
      int fd = open(cursor, O_RDWR | O_CREAT, 0644);
      if (fd < 0 || ftruncate(fd, sizeof(Cur)) != 0) return 3;
      cur = (Cur*)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else {
      cur = (Cur*)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    HashSet hs(1u << 23);
    std::FILE* hf = hashes ? std::fopen(hashes, "wb") : nullptr;
    const double t0 = wall();
    auto flush_stats = [&]() {
      const Stats& s = rt_stats();
      cur->runs = s.runs;
      cur->steps = s.steps;
      cur->switches = s.switches;
      cur->sim_ns = s.sim_ns;
      cur->fibers = s.fibers;
      cur->fair = s.fair_runs;
      std::memcpy(cur->faults, s.faults, sizeof s.faults);
      const char* nm[128];
      u64 ct[128];
      const u32 n = rt_probes(nm, ct, 128);
      cur->nprobes = n;
      for (u32 i = 0; i < n; ++i) {
        std::snprintf(cur->pname[i], 48, "%s", nm[i]);
        cur->pcount[i] = ct[i];
      }
    };
    for (u64 i = 0; i < maxn; ++i) {
      const u64 idx = first + i * stride;
      u64 r = mix(idx * 0x2545F4914F6CDD1Dull + base) % wtotal;
      u32 wi = 0;
      while (r >= ws[wi]->weight) r -= ws[wi++]->weight;
      const u64 seed = mix(base * 1000003 + idx) >> 1;
      cur->idx = idx;
      const u64 h = rt_run(ws[wi], seed, nullptr, false);
      if (wi < 64) ++cur->per_wl[wi];
      const bool nontrivial = (rec->fibers > 1 && rec->ndev > 0) || rec->nontrivial;
      if (nontrivial) {
        ++cur->nontrivial;
        if (hs.add(h)) {
          ++cur->distinct;
          if (hf) std::fwrite(&h, 8, 1, hf);
        }
      }
      if ((i & 63) == 63) {
        flush_stats();
        if (wall() - t0 > budget) break;
      }
    }
    flush_stats();
    if (hf) std::fclose(hf);
    (void)stats;
    return 0;
  }
  if (mode == "hashes") {  // determinism probe: print the event-log hash of many seeds
    const auto ws = select(arg(argc, argv, "--wl", "all"));
    const u64 base = std::strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    const u64 n = std::strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
    const u64 from = std::strtoull(arg(argc, argv, "--first", "0"), nullptr, 10);
    const bool rev = has(argc, argv, "--reverse");
    struct R {
      u64 h, s;
    };
    R* v = (R*)mmap(nullptr, n * sizeof(R), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (u64 j = 0; j < n; ++j) {
      const u64 i = rev ? n - 1 - j : j;
      Workload* w = ws[(from + i) % ws.size()];
      v[i].h = rt_run(w, mix(base * 77 + from + i) >> 1, nullptr, false);
      v[i].s = rec->steps;
    }
    for (u64 i = 0; i < n; ++i) std::printf("%llu %s %016llx %llu\n", (unsigned long long)(from + i), ws[(from + i) % ws.size()]->name, (unsigned long long)v[i].h, (unsigned long long)v[i].s);
    return 0;
  }
  if (mode == "one") {
    Workload* w = find(arg(argc, argv, "--wl", ""));
    if (!w) return 3;
    const u64 seed = std::strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    const u64 h = rt_run(w, seed, nullptr, has(argc, argv, "--trace"));
    std::printf("ok hash=%016llx steps=%llu\n", (unsigned long long)h, (unsigned long long)rec->steps);
    return 0;
  }
  if (mode == "replay") {
    Record* in = shared_record();
    const char* f = arg(argc, argv, "--file", nullptr);
    if (!f || !read_file(f, *in)) return 3;
    Workload* w = find(in->workload);
    if (!w) return 3;
    const u64 h = rt_run(w, in->seed, in, has(argc, argv, "--trace"));
    std::printf("no violation hash=%016llx steps=%llu\n", (unsigned long long)h, (unsigned long long)rec->steps);
    return 0;
  }
  if (mode == "minimize") {
    const char* f = arg(argc, argv, "--file", nullptr);
    const int rc = minimize(f, outs.c_str(), std::atof(arg(argc, argv, "--time", "30")));
    return rc;
  }
  return 3;
}
