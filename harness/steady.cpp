// P39: what is used over and over stays bounded.
//
// Every call of malloc & co. in the process is counted (also those inside the C library). A cycle of operations that leaves things as it found them is
// repeated hundreds of times; after a few rounds its memory, descriptors, mappings and the number of allocations it needs have to stay the same. Building
// large objects element by element has to need amortized constant work.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <malloc.h>
#include <thread>
#include "mon.hpp"
#include "works.hpp"

extern "C" {
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
void __libc_free(void *);
}
static std::atomic<long> g_blocks{0}, g_bytes{0}, g_calls{0}, g_asked{0}, g_deadline{0};
static void * got(void * p, size_t n)
{
  g_calls++;
  g_asked += static_cast<long>(n);
  if (p) {g_blocks++; g_bytes += static_cast<long>(malloc_usable_size(p));}
  return p;
}
static void gone(void * p) {if (p) {g_blocks--; g_bytes -= static_cast<long>(malloc_usable_size(p));}}
extern "C" {
void * malloc(size_t n) {return got(__libc_malloc(n), n);}
void * calloc(size_t n, size_t m) {return got(__libc_calloc(n, m), n * m);}
void * realloc(void * p, size_t n)
{
  size_t old = p ? malloc_usable_size(p) : 0;
  void * q = __libc_realloc(p, n);
  if (p && (q || !n)) {g_blocks--; g_bytes -= static_cast<long>(old);}
  return got(q, n);
}
void free(void * p) {gone(p); __libc_free(p);}
void * memalign(size_t a, size_t n) {return got(__libc_memalign(a, n), n);}
void * aligned_alloc(size_t a, size_t n) {return got(__libc_memalign(a, n), n);}
int posix_memalign(void ** p, size_t a, size_t n) {*p = got(__libc_memalign(a, n), n); return *p ? 0 : ENOMEM;}
}

using namespace mon;


static int entries_of(const char * dir)
{
  int n = 0;
  DIR * d = opendir(dir);
  if (!d) {return -1;}
  while (readdir(d)) {++n;}
  closedir(d);
  return n;
}
static int mappings()
{
  int fd = open("/proc/self/maps", O_RDONLY), n = 0;
  char b[4096];
  ssize_t k;
  while ((k = read(fd, b, sizeof(b))) > 0) {for (ssize_t i = 0; i < k; ++i) {n += b[i] == '\n';}}
  close(fd);
  return n;
}

struct State {long blocks, bytes, calls, fds, maps, threads;};
static State look(long calls)
{
  State s;
  s.fds = entries_of("/proc/self/fd");
  s.maps = mappings();
  s.threads = entries_of("/proc/self/task");
  s.blocks = g_blocks; s.bytes = g_bytes; s.calls = calls;
  return s;
}

static void repeat(Case & c)
{
  Rng & g = c.rng;
  unsigned kind = static_cast<unsigned>(c.idx) % WORKS;
  rcutils_fault_injection_set_count(-1);
  uint64_t cycle_seed = g.next(), variants = g.range(1, 5);
  const unsigned warm = 24, rounds = 120 + static_cast<unsigned>(g.below(c.thorough ? 1500 : 160));
  State before = look(0);
  {
    std::unique_ptr<Work> w = make(g, kind);
    std::string what = w->what;
    std::vector<long> calls(variants, -1);
    State first = look(0), s = first;
    for (unsigned i = 0; i < rounds; ++i) {
      Rng r(cycle_seed + i % variants);
      long was = g_calls;
      w->cycle(r);
      long used = g_calls - was;
      // one full turn of all variants is looked at
      if (i == warm * variants - 1) {first = look(0);}
      if (i + 1 > warm * variants && !w->fresh) {
        long & n = calls[i % variants];
        if (n < 0) {n = used;}
        MON_CHECK(used <= n, "steady.allocations", "%s: %ld allocations in cycle %u, %ld before", what.c_str(), used, i, n);
      }
      if (i >= warm * variants && (i + 1) % variants == 0) {
        s = look(0);
        MON_CHECK(s.fds <= first.fds, "steady.descriptors", "%s: %ld descriptors after %u cycles, %ld after %u", what.c_str(), s.fds, i + 1, first.fds, warm);
        // a joined thread remains listed for a moment
        for (int t = 0; t < 2000 && s.threads > first.threads; ++t) {usleep(1000); s.threads = entries_of("/proc/self/task");}
        MON_CHECK(s.threads <= first.threads, "steady.threads", "%s: %ld threads, %ld before", what.c_str(), s.threads, first.threads);
        if (w->fresh) {
          MON_CHECK(s.blocks - before.blocks <= w->limit_blocks, "steady.memory", "%s: %ld blocks after %u cycles, at most %ld expected", what.c_str(), s.blocks - before.blocks,
            i + 1, w->limit_blocks);
          MON_CHECK(s.bytes - before.bytes <= w->limit_bytes, "steady.memory", "%s: %ld bytes after %u cycles, at most %ld expected", what.c_str(), s.bytes - before.bytes,
            i + 1, w->limit_bytes);
        } else {
          MON_CHECK(s.blocks <= first.blocks, "steady.memory", "%s: %ld blocks after %u cycles, %ld after %" PRIu64, what.c_str(), s.blocks, i + 1, first.blocks, warm * variants);
          // the C library hands out up to 16 bytes more than necessary when the rest of a block is too small to be of use
          MON_CHECK(s.bytes <= first.bytes + 32 * first.blocks + 128, "steady.memory", "%s: %ld bytes after %u cycles, %ld after %" PRIu64, what.c_str(), s.bytes, i + 1, first.bytes, warm * variants);
        }
      }
    }
    if (rounds > warm * variants) {
      MON_CHECK(s.maps <= first.maps + 3, "steady.mappings", "%s: %ld mappings, %ld before", what.c_str(), s.maps, first.maps);
      c.interesting();
      count("steady." + what);
      count("steady.cycles", rounds);
    }
    c.mix(kind); c.mix(cycle_seed);
    if (c.want_sample()) {c.sample(fmt("%s: %u cycles, %ld blocks and %ld bytes throughout", what.c_str(), rounds, s.blocks - before.blocks, s.bytes - before.bytes));}
  }
}

// building something large piece by piece
static double lg(double n) {double r = 0; while (n > 1) {n /= 2; ++r;} return r;}
static void build(Case & c)
{
  Rng & g = c.rng;
  auto a = al();
  size_t n = g.range(200, c.thorough ? 60000 : 12000);
  unsigned kind = static_cast<unsigned>(c.idx) % 5;
  long was = g_calls, asked = g_asked;
  long most = 0, bytes = 0;
  const char * what = "";
  if (kind == 0) {
    what = "list";
    size_t ds = g.range(1, 40);
    rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
    std::string s = g.bytes(ds);
    was = g_calls; asked = g_asked;
    OK(rcutils_array_list_init(&l, 1 + g.below(3), ds, &a));
    for (size_t i = 0; i < n; ++i) {OK(rcutils_array_list_add(&l, s.data()));}
    most = static_cast<long>(6 * lg(static_cast<double>(n)) + 16);
    bytes = static_cast<long>(16 * n * ds + 4096);
    MON_CHECK(g_calls - was <= most, "steady.build", "%s of %zu elements: %ld allocations", what, n, g_calls - was);
    MON_CHECK(g_asked - asked <= bytes, "steady.build", "%s of %zu elements: %ld bytes asked for", what, n, g_asked - asked);
    OK(rcutils_array_list_fini(&l));
  } else if (kind == 1) {
    what = "map";
    rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
    was = g_calls; asked = g_asked;
    OK(rcutils_hash_map_init(&m, 1 + g.below(9), 8, 8, whash, wcmp, &a));
    uint64_t salt = g.next();
    for (size_t i = 0; i < n; ++i) {
      uint64_t k = salt + i;
      OK(rcutils_hash_map_set(&m, &k, &k));
    }
    most = static_cast<long>(24 * n + 200);
    bytes = static_cast<long>(1000 * n + 8192);
    MON_CHECK(g_calls - was <= most, "steady.build", "%s of %zu entries: %ld allocations", what, n, g_calls - was);
    MON_CHECK(g_asked - asked <= bytes, "steady.build", "%s of %zu entries: %ld bytes asked for", what, n, g_asked - asked);
    size_t cap = 0;
    OK(rcutils_hash_map_get_capacity(&m, &cap));
    MON_CHECK(cap * 4 >= n && cap <= 16 * n + 64, "steady.build", "capacity %zu for %zu entries", cap, n);
    OK(rcutils_hash_map_fini(&m));
  } else if (kind == 2) {
    what = "string map";
    n = n / 8 + 10;
    rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
    std::vector<std::string> keys;
    for (size_t i = 0; i < n; ++i) {keys.push_back("key" + std::to_string(i));}
    was = g_calls; asked = g_asked;
    OK(rcutils_string_map_init(&m, g.below(3), a));
    for (auto & k : keys) {OK(rcutils_string_map_set(&m, k.c_str(), "v"));}
    most = static_cast<long>(4 * n + 6 * lg(static_cast<double>(n)) + 40);
    bytes = static_cast<long>(200 * n + 8192);
    MON_CHECK(g_calls - was <= most, "steady.build", "%s of %zu pairs: %ld allocations", what, n, g_calls - was);
    MON_CHECK(g_asked - asked <= bytes, "steady.build", "%s of %zu pairs: %ld bytes asked for", what, n, g_asked - asked);
    OK(rcutils_string_map_fini(&m));
  } else if (kind == 3) {
    what = "text";
    rcutils_char_array_t t = rcutils_get_zero_initialized_char_array();
    std::string s = g.str(g.range(1, 12), "abc");
    n = n / 8 + 50;
    was = g_calls; asked = g_asked;
    OK(rcutils_char_array_init(&t, 1 + g.below(3), &a));
    for (size_t i = 0; i < n; ++i) {OK(rcutils_char_array_strcat(&t, s.c_str()));}
    double total = static_cast<double>(n * s.size());
    most = static_cast<long>(6 * lg(total) + 16);
    bytes = static_cast<long>(16 * total + 4096);
    MON_CHECK(g_calls - was <= most, "steady.build", "%s of %zu pieces: %ld allocations", what, n, g_calls - was);
    MON_CHECK(g_asked - asked <= bytes, "steady.build", "%s of %zu pieces: %ld bytes asked for", what, n, g_asked - asked);
    OK(rcutils_char_array_fini(&t));
  } else {
    what = "replacement";
    std::string s;
    for (size_t i = 0; i < n; ++i) {s += "x-";}
    was = g_calls; asked = g_asked;
    char * r = rcutils_repl_str(s.c_str(), "x", "yy", &a);
    MON_CHECK(r && strlen(r) == 3 * n, "steady.operation", "replacement");
    MON_CHECK(g_calls - was <= 6 * lg(static_cast<double>(n)) + 16, "steady.build", "%zu replacements: %ld allocations", n, g_calls - was);
    MON_CHECK(g_asked - asked <= static_cast<long>(100 * n + 4096), "steady.build", "%zu replacements: %ld bytes asked for", n, g_asked - asked);
    free(r);
  }
  c.interesting();
  c.mix(kind); c.mix(n);
  count(std::string("build.") + what);
  if (c.want_sample()) {c.sample(fmt("%s of %zu pieces", what, n));}
}

static void register_all()
{
  section("repeat", 340, 5100, repeat);
  section("build", 200, 3000, build);
}
MON_MAIN(register_all)
