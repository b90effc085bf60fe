// Explores all interleavings, up to a bound on preemptions, of threads drawing from the real random source.
// rand.cc is compiled with -fsanitize=thread, whose callbacks are the scheduling points, and linked with this file
// instead of the sanitizer; locks are those of the model. Every execution runs in a process of its own.
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "algorithms/rand.h"

namespace {

constexpr int kMaxThreads = 3, kMaxOps = 4, kMaxChoices = 4000;

uint64_t Word(uint64_t i) {  // distinct words with the highest bit set
  uint64_t z = (i + 1) * 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return (z ^ (z >> 31)) | (1ull << 63);
}

enum Outcome { kFine, kDeadlock, kTooLong, kDied };

struct Shared {  // between the process of an execution and its parent
  int outcome;
  int nchoices;
  unsigned char options[kMaxChoices], taken[kMaxChoices];
  uint64_t states[kMaxChoices];
  uint64_t result[kMaxThreads][kMaxOps];
  int filled;
};
Shared* sh;

std::vector<std::vector<char>> program;  // per thread: w a word, u a uniform draw
int nthreads;
bool running = false;
std::vector<unsigned char> prefix;
int bound;

uint64_t next_word = 0;

struct Thread {
  sem_t sem;
  pthread_t id;
  char *lo = nullptr, *hi = nullptr;
  bool finished = false;
  const void* waits = nullptr;
  bool shared_wait = false;
  uint64_t steps = 0;
} th[kMaxThreads];
struct Lock {
  int owner = -1;
  int readers = 0;
};
std::map<const void*, Lock>* locks;
int cur = -1, preemptions = 0, steps = 0;
sem_t done;
thread_local int me = -1;

bool Free(const void* m, bool shared) {
  Lock& l = (*locks)[m];
  return l.owner < 0 && (shared || l.readers == 0);
}
bool Enabled(int t) { return !th[t].finished && (th[t].waits == nullptr || Free(th[t].waits, th[t].shared_wait)); }

void Stop(int outcome) {
  sh->outcome = outcome;
  _exit(0);
}

// Chooses who goes on; the caller waits until it is its turn again, unless it has finished.
void Choose() {
  if (++steps > 20000) Stop(kTooLong);
  int opts[kMaxThreads], n = 0;
  bool can = cur >= 0 && Enabled(cur);
  if (can) opts[n++] = cur;
  if (!can || preemptions < bound)
    for (int t = 0; t < nthreads; t++)
      if (t != cur && Enabled(t)) opts[n++] = t;
  if (n == 0) {
    for (int t = 0; t < nthreads; t++)
      if (!th[t].finished) Stop(kDeadlock);
    sem_post(&done);
    return;
  }
  int pick = 0;
  if (n > 1) {
    int i = sh->nchoices;
    if (i >= kMaxChoices) Stop(kTooLong);
    pick = i < (int)prefix.size() ? prefix[i] : 0;
    sh->options[i] = n;
    sh->taken[i] = pick;
    uint64_t h = next_word * 1000003 + cur + 1;
    for (int t = 0; t < nthreads; t++) h = (h ^ (th[t].steps * 2 + th[t].finished)) * 0x100000001b3ull;
    sh->states[i] = h;
    sh->nchoices++;
  }
  int t = opts[pick];
  if (t == cur) return;
  if (can) preemptions++;
  int old = me;
  cur = t;
  sem_post(&th[t].sem);
  if (old >= 0 && !th[old].finished) while (sem_wait(&th[old].sem)) {}
}

void Point() {
  if (!running || me < 0) return;
  th[me].steps++;
  Choose();
}

void Access(const void* p) {
  if (!running || me < 0) return;
  const char* c = static_cast<const char*>(p);
  if (c >= th[me].lo && c < th[me].hi) return;
  Point();
}

void Acquire(const void* m, bool shared = false) {
  if (!running || me < 0) return;
  Point();
  while (!Free(m, shared)) {
    th[me].waits = m;
    th[me].shared_wait = shared;
    Choose();
    th[me].waits = nullptr;
  }
  Lock& l = (*locks)[m];
  if (shared) l.readers++; else l.owner = me;
}
bool TryAcquire(const void* m) {
  if (!running || me < 0) return true;
  Point();
  if (!Free(m, false)) return false;
  (*locks)[m].owner = me;
  return true;
}
void Release(const void* m, bool shared = false) {
  if (!running || me < 0) return;
  Lock& l = (*locks)[m];
  if (shared) l.readers--; else l.owner = -1;
  Point();
}

void* Body(void* arg) {
  int t = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  pthread_attr_t a;
  void* lo;
  size_t size;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &lo, &size);
  pthread_attr_destroy(&a);
  th[t].lo = static_cast<char*>(lo);
  th[t].hi = th[t].lo + size;
  sem_post(&done);
  while (sem_wait(&th[t].sem)) {}
  me = t;
  for (size_t i = 0; i < program[t].size(); i++) {
    uint64_t r;
    if (program[t][i] == 'u') {
      double d = differential_privacy::UniformDouble();
      memcpy(&r, &d, 8);
    } else {
      r = differential_privacy::SecureURBG::GetInstance()();
    }
    sh->result[t][i] = r;
  }
  th[t].finished = true;
  Choose();
  return nullptr;
}

// Runs one execution in this process.
void Execute() {
  alarm(30);
  sem_init(&done, 0, 0);
  for (int t = 0; t < nthreads; t++) {
    sem_init(&th[t].sem, 0, 0);
    if (pthread_create(&th[t].id, nullptr, Body, reinterpret_cast<void*>(static_cast<intptr_t>(t)))) abort();
  }
  for (int t = 0; t < nthreads; t++) while (sem_wait(&done)) {}
  running = true;
  Choose();
  while (sem_wait(&done)) {}
  sh->outcome = kFine;
  sh->filled = static_cast<int>(next_word);
  _exit(0);
}

}  // namespace

// What the library calls.
extern "C" int RAND_bytes(unsigned char* buf, int num) {
  // the first half, then the second: other threads may run in between
  for (int i = 0; i + 8 <= num; i += 8) {
    if (i == num / 16 * 8) Point();
    uint64_t w = Word(next_word++);
    memcpy(buf + i, &w, 8);
  }
  return 1;
}

namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() { Acquire(this); }
void Mutex::Unlock() { Release(this); }
bool Mutex::TryLock() { return TryAcquire(this); }
void Mutex::ReaderLock() { Acquire(this, true); }
void Mutex::ReaderUnlock() { Release(this, true); }
bool Mutex::ReaderTryLock() { return TryAcquire(this); }
#ifdef __SANITIZE_THREAD__
Mutex::~Mutex() {}
#endif
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
ABSL_NAMESPACE_END
}  // namespace absl

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { Acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { Release(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return TryAcquire(m) ? 0 : 16; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { Acquire(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { Acquire(m, true); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { Release(m, running && me >= 0 && (*locks)[m].owner != me); return 0; }

int __cxa_guard_acquire(uint64_t* g) {
  char* c = reinterpret_cast<char*>(g);
  if (*c) return 0;
  Acquire(g);
  if (*c) {
    Release(g);
    return 0;
  }
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  Release(g);
}
void __cxa_guard_abort(uint64_t* g) { Release(g); }

void __tsan_init() {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { Access(p); }
void __tsan_vptr_read(void** p) { Access(p); }
void __tsan_read_range(void* p, size_t) { Access(p); }
void __tsan_write_range(void* p, size_t) { Access(p); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { Access(s); Access(d); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { Access(d); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { Access(s); Access(d); return memmove(d, s, n); }
#define RW(n) \
  void __tsan_read##n(void* p) { Access(p); } \
  void __tsan_write##n(void* p) { Access(p); } \
  void __tsan_unaligned_read##n(void* p) { Access(p); } \
  void __tsan_unaligned_write##n(void* p) { Access(p); } \
  void __tsan_volatile_read##n(void* p) { Access(p); } \
  void __tsan_volatile_write##n(void* p) { Access(p); } \
  void __tsan_read_write##n(void* p) { Access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define ATOMIC(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { Access((const void*)a); return *a; } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { Access((const void*)a); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { Access((const void*)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { Access((const void*)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { Access((const void*)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { Access((const void*)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { Access((const void*)a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { Access((const void*)a); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
    Access((const void*)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int n) { \
    return __tsan_atomic##b##_compare_exchange_strong(a, c, v, m, n); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { Point(); }
void __tsan_atomic_signal_fence(int) {}
}

namespace {

std::unordered_set<uint64_t> states;
long transitions = 0, traces = 0, evals = 0;
std::vector<std::pair<std::string, std::string>> fails;
std::string sample;

// What a uniform draw makes of a word with the highest bit set.
uint64_t AsUniform(uint64_t w) {
  int lead = __builtin_clzll(w >> 52) - 52;  // the twelve high bits
  uint64_t m = w & ((1ull << 52) - 1);
  return ((1023ull - (lead + 1)) << 52) + m;
}

std::string Describe() {
  std::string s;
  for (int t = 0; t < nthreads; t++) {
    s += t ? " | " : "";
    for (char c : program[t]) s += c;
  }
  return s;
}

void Fail(const std::string& key, const std::string& msg) {
  if (fails.size() < 20) fails.emplace_back(key, msg);
}

// All schedules of one scenario.
void Explore(int left, int used_before, bool fresh, long limit) {
  (void)left;
  std::vector<unsigned char> path;
  std::map<uint64_t, uint64_t> index;
  std::string name = Describe() + (fresh ? ", first use" : ", " + std::to_string(left) + " words left");
  long n = 0;
  while (true) {
    memset(sh, 0, offsetof(Shared, options));
    memset(sh->result, 0, sizeof sh->result);
    sh->outcome = kDied;
    prefix = path;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) Execute();
    int status;
    waitpid(pid, &status, 0);
    traces++;
    n++;
    transitions += sh->nchoices + 1;
    for (int i = 0; i < sh->nchoices; i++) states.insert(sh->states[i] * 31 + std::hash<std::string>()(name));
    std::string sched;
    for (int i = 0; i < sh->nchoices; i++) sched += char('0' + sh->taken[i]);
    evals++;
    const char* key = nullptr;
    std::string msg;
    if (sh->outcome == kDied) key = "ends the program";
    if (sh->outcome == kDeadlock) key = "deadlock";
    if (sh->outcome == kTooLong) key = "never ends";
    if (!key) {
      std::set<uint64_t> used;
      for (int i = 0; index.size() < (size_t)sh->filled; i++) {
        uint64_t k = index.size();
        index[Word(k)] = k;
      }
      std::map<uint64_t, uint64_t> uni;
      for (int t = 0; t < nthreads && !key; t++)
        for (size_t i = 0; i < program[t].size() && !key; i++) {
          uint64_t r = sh->result[t][i];
          uint64_t found = ~0ull;
          if (program[t][i] == 'u') {
            for (uint64_t k = 0; k < (uint64_t)sh->filled; k++)
              if (AsUniform(Word(k)) == r) { found = k; break; }
          } else {
            auto it = index.find(r);
            if (it != index.end() && it->second < (uint64_t)sh->filled) found = it->second;
          }
          evals++;
          if (found == ~0ull) key = "value not made of one word of the source";
          else if ((int64_t)found < used_before && !fresh) key = "word used again";
          else if (!used.insert(found).second) key = "word used twice";
        }
    }
    if (key) Fail(key, name + ", schedule " + sched);
    if (sample.empty() && n == 3) sample = name + ": schedule " + sched;
    if (key) return;
    // the next schedule
    path.assign(sh->taken, sh->taken + sh->nchoices);
    int i = sh->nchoices - 1;
    while (i >= 0 && path[i] + 1 >= sh->options[i]) i--;
    if (i < 0) break;
    path.resize(i + 1);
    path[i]++;
    if (n > limit) {
      Fail("limit", name + ": too many schedules");
      return;
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  // race THREADS(ops separated by commas) LEFT(-1: first use) PREEMPTIONS
  locks = new std::map<const void*, Lock>;
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string p = argv[1];
  program.emplace_back();
  for (char c : p)
    if (c == ',') program.emplace_back(); else program.back().push_back(c);
  nthreads = program.size();
  int left = atoi(argv[2]);
  bound = atoi(argv[3]);
  int used = 0;
  if (left >= 0) {
    // draw until the next fill is `left` words away (the words before it have been handed out)
    differential_privacy::SecureURBG::GetInstance()();
    used = 1;
    while (static_cast<int64_t>(next_word) - used > left) {
      differential_privacy::SecureURBG::GetInstance()();
      used++;
    }
  }
  Explore(left, used, left < 0, 3000000);
  printf("{\"states\":[");
  size_t k = 0;
  for (uint64_t s : states) printf("%s\"%llx\"", k++ ? "," : "", (unsigned long long)s);
  printf("],\"transitions\":%ld,\"traces\":%ld,\"evals\":%ld,\"samples\":[\"%s\"],\"fails\":[", transitions, traces, evals, sample.c_str());
  for (size_t i = 0; i < fails.size(); i++) printf("%s{\"key\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", fails[i].first.c_str(), fails[i].second.c_str());
  printf("]}\n");
  return 0;
}
