// Explorer of the value semantics of context objects: all sequences of construct / move / assign / swap / resume /
// finish / destroy over K object slots, searched to a fixpoint; after every step every object, every pair and every
// triple is compared with a model of which object denotes which context.
//   handles graph -K 3 | handles dfs -K 2 --len 5 | handles path -K 3 --path "N0 M1.0 ..."
#if API
# include <boost/context/continuation.hpp>
typedef boost::context::continuation H;
#else
# include <boost/context/fiber.hpp>
typedef boost::context::fiber H;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
static_assert(std::is_nothrow_move_constructible<H>::value, "context objects are nothrow move constructible");
static_assert(std::is_nothrow_move_assignable<H>::value, "context objects are nothrow move assignable");
static_assert(std::is_nothrow_default_constructible<H>::value, "context objects are nothrow default constructible");
static_assert(noexcept(!std::declval<H const &>()) && noexcept(static_cast<bool>(std::declval<H const &>())) && noexcept(std::declval<H &>().swap(std::declval<H &>())) && noexcept(swap(std::declval<H &>(), std::declval<H &>())), "tests and swaps do not throw");
static_assert(noexcept(std::declval<H const &>() < std::declval<H const &>()) && noexcept(std::declval<H const &>() > std::declval<H const &>()) && noexcept(std::declval<H const &>() <= std::declval<H const &>()) && noexcept(std::declval<H const &>() >= std::declval<H const &>()) && noexcept(std::declval<H const &>() == std::declval<H const &>()) && noexcept(std::declval<H const &>() != std::declval<H const &>()), "comparisons do not throw");
static_assert(!std::is_copy_constructible<H>::value && !std::is_constructible<H, H &>::value && !std::is_constructible<H, H const &>::value && !std::is_constructible<H, H const>::value, "context objects are not copyable");
static_assert(!std::is_copy_assignable<H>::value && !std::is_assignable<H &, H &>::value, "context objects are not copy assignable");
static_assert(std::is_default_constructible<H>::value, "context objects are default constructible");
static_assert(!std::is_convertible<H, bool>::value && std::is_constructible<bool, H>::value, "the test is explicit");
static_assert(!std::is_convertible<H, int>::value, "no conversion to integers");

static int K = 3, LEN = 4;
static int const MAXK = 4, MAXC = 64;
struct Op { char c; int i, j; };
enum { ABSENT = -3, EMPTY = -2, TERM = -1 };
struct Model { int s[MAXK]; int next;
    std::string key() const { std::string k; int map[MAXC + 1], n = 0; memset(map, -1, sizeof map); for (int i = 0; i < K; ++i) { int v = s[i]; if (v >= 0) { if (map[v] < 0) map[v] = n++; v = map[v]; } k += (char)('d' + v); } return k; }
    bool live(int c) const { for (int i = 0; i < K; ++i) if (s[i] == c) return true; return false; }
};
static Model init_model() { Model m; for (int i = 0; i < MAXK; ++i) m.s[i] = ABSENT; m.next = 0; return m; }
static std::vector<Op> ops(Model const & m) {
    std::vector<Op> v;
    for (int i = 0; i < K; ++i) {
        if (m.s[i] == ABSENT) v.push_back(Op{'C', i, 0}); else v.push_back(Op{'D', i, 0});
        if (m.next < MAXC) v.push_back(Op{'N', i, 0});
        for (int j = 0; j < K; ++j) {
            if (m.s[i] == ABSENT && m.s[j] != ABSENT) v.push_back(Op{'M', i, j});
            if (m.s[i] != ABSENT && m.s[j] != ABSENT) { v.push_back(Op{'A', i, j}); v.push_back(Op{'S', i, j}); v.push_back(Op{'s', i, j}); if (i != j) v.push_back(Op{'X', i, j}); v.push_back(Op{'T', i, j}); }
            if (m.s[i] >= 0) { v.push_back(Op{'R', i, j}); v.push_back(Op{'F', i, j}); v.push_back(Op{'W', i, j}); }
        }
    }
    return v;
}
static void apply(Model & m, Op const & o) {
    int t;
    switch (o.c) {
    case 'C': m.s[o.i] = EMPTY; break;
    case 'D': m.s[o.i] = ABSENT; break;
    case 'N': m.s[o.i] = m.next++; break;
    case 'M': m.s[o.i] = m.s[o.j]; m.s[o.j] = EMPTY; break;
    case 'A': case 'T': if (o.i != o.j) { m.s[o.i] = m.s[o.j]; m.s[o.j] = EMPTY; } break;
    case 'S': case 's': case 'X': t = m.s[o.i]; m.s[o.i] = m.s[o.j]; m.s[o.j] = t; break;
    case 'R': case 'W': t = m.s[o.i]; m.s[o.i] = EMPTY; m.s[o.j] = t; break;
    case 'F': m.s[o.i] = EMPTY; m.s[o.j] = TERM; break;
    }
}
static std::string show(std::vector<Op> const & v) { std::string s; char b[24]; for (auto & o : v) { if (strchr("CDN", o.c)) snprintf(b, sizeof b, "%c%d", o.c, o.i); else snprintf(b, sizeof b, "%c%d.%d", o.c, o.i, o.j); if (!s.empty()) s += ' '; s += b; } return s; }
static std::vector<Op> parse(char const * s) { std::vector<Op> v; while (*s) { if (*s == ' ') { ++s; continue; } Op o{*s++, 0, 0}; char * e; o.i = strtol(s, &e, 10); s = e; if (*s == '.') { o.j = strtol(s + 1, &e, 10); s = e; } v.push_back(o); } return v; }

struct Shared { volatile long idx, done, checks; volatile int bad; char msg[700]; };
static Shared * sh;
struct Fail {};
static void bad(char const * f, long a = 0, long b = 0, long c = 0) { if (!sh->bad) { snprintf(sh->msg, sizeof sh->msg, f, a, b, c); sh->bad = 1; } throw Fail(); }
static struct Info { int started, ended, frees; bool finish; } info[MAXC + 1];
static std::vector<void *> pool;
struct PAlloc {
    int id;
    boost::context::stack_context allocate() { boost::context::stack_context s; s.size = 24576; void * p; if (pool.empty()) p = malloc(s.size); else { p = pool.back(); pool.pop_back(); } s.sp = (char *)p + s.size; return s; }
    void deallocate(boost::context::stack_context & s) { info[id].frees++; pool.push_back((char *)s.sp - s.size); }
};
struct Local { int id; ~Local() { info[id].ended++; } };
alignas(H) static unsigned char store[MAXK][sizeof(H)];
static H & slot(int i) { return *reinterpret_cast<H *>(store[i]); }
static int running;
static std::string out(H const & h) { std::ostringstream o; o << h; return o.str(); }
static std::string wout(H const & h) { std::wostringstream o; o << h; std::wstring w = o.str(); return std::string(w.begin(), w.end()); }
static void compare(Model const & m, H const * extra);
static Model cur;
static H body(int id, H && h0) {
    H h = std::move(h0);
    if (h0) bad("the object a context was moved from is not empty");
    info[id].started++;
    Local l{id};
#if API
    h = std::move(h).resume();     // call/cc enters the function at once
#endif
    for (;;) {
        if (running != id) bad("resuming the object of context %ld ran context %ld", running, id);
        if (!h || !static_cast<bool>(h)) bad("the resumer is not denoted by the object delivered to context %ld", id);
        compare(cur, &h);
        if (info[id].finish) return h;
        h = std::move(h).resume();
    }
    return h;
}
static H make(int id) {
    PAlloc a{id};
    auto f = [id](H && h) { return body(id, std::move(h)); };
#if API
    H h = boost::context::callcc(std::allocator_arg, a, f);
    return h;
#else
    return H(std::allocator_arg, a, f);
#endif
}
// m: model with the running context's object removed while a context runs (it is in nobody's slot)
static void compare(Model const & m, H const * extra) {
    std::vector<H const *> hs; std::vector<int> val;
    for (int i = 0; i < K; ++i) if (m.s[i] != ABSENT) { hs.push_back(&slot(i)); val.push_back(m.s[i]); }
    if (extra) { hs.push_back(extra); val.push_back(MAXC); }
    std::set<std::string> seen;
    size_t n = hs.size();
    for (size_t i = 0; i < n; ++i) {
        H const & h = *hs[i]; bool live = val[i] >= 0;
        sh->checks = sh->checks + 1;
        if (static_cast<bool>(h) != live) bad(live ? "an object that denotes a context tests false" : "an object that denotes no context tests true");
        if ((!h) == live) bad("operator! disagrees with the boolean test");
        if (h < h) bad("an object is less than itself");
        std::string s = out(h), w = wout(h);
        if (val[i] == EMPTY && s != "{not-a-context}") bad("an empty object does not print as {not-a-context}");
        if (val[i] == EMPTY && w != "{not-a-context}") bad("an empty object does not print as {not-a-context} to a wide stream");
        if (live && (s.empty() || s == "{not-a-context}" || w.empty() || w == "{not-a-context}")) bad("a live object prints as {not-a-context}");
        if (live && !seen.insert(s).second) bad("two live contexts print the same");
        for (size_t j = 0; j < n; ++j) {
            bool a = h < *hs[j], b = *hs[j] < h;
            H const & g = *hs[j]; bool eq = h == g;
            if ((h != g) == eq || (h > g) != b || (h <= g) == b || (h >= g) == a) bad("the comparison operators do not agree with each other");
            if (eq && (a || b)) bad("equal objects are ordered");
            if (i == j && !eq) bad("an object is not equal to itself");
            if (i != j && eq && (live || val[j] >= 0)) bad("a live object is equal to another object");
            if (val[i] == EMPTY && val[j] == EMPTY && !eq) bad("empty objects are not equal");
            if (a && b) bad("two objects are less than each other");
            if (i != j && (live || val[j] >= 0) && !(a || b)) bad("a live object is not ordered relative to another object");
            if (val[i] == EMPTY && val[j] == EMPTY && (a || b)) bad("empty objects are ordered");
            for (size_t k = 0; k < n; ++k) if (a && *hs[j] < *hs[k] && !(h < *hs[k])) bad("the ordering is not transitive");
        }
    }
}
static void run_path(std::vector<Op> const & p) {
    using std::swap;
    Model m = init_model(); memset(info, 0, sizeof info); running = -1;
    try {
        for (size_t n = 0; n < p.size(); ++n) {
            Op o = p[n]; Model pre = m;
            if (o.c == 'D') { apply(m, o); slot(o.i).~H(); }
            else if (o.c == 'C') { apply(m, o); new (store[o.i]) H(); }
            else if (o.c == 'N') {
                int id = m.next; cur = m; apply(m, o); running = id;
                if (pre.s[o.i] == ABSENT) new (store[o.i]) H(make(id)); else slot(o.i) = make(id);
                if (info[id].started != API) bad("creation ran or did not run the function");
            }
            else if (o.c == 'M') { std::string b = out(slot(o.j)); apply(m, o); new (store[o.i]) H(std::move(slot(o.j))); if (out(slot(o.i)) != b) bad("moving an object changed what it prints"); }
            else if (o.c == 'A' || o.c == 'T') {
                std::string b = out(slot(o.j)); apply(m, o);
                if (o.c == 'A') { H & r = (slot(o.i) = std::move(slot(o.j))); if (&r != &slot(o.i)) bad("assignment returns another object"); }
                else { H t(std::move(slot(o.j))); if (o.i == o.j) { if (slot(o.j)) bad("a moved-from object is not empty"); } slot(o.i) = std::move(t); }
                if (out(slot(o.i)) != b) bad("move-assigning an object changed what it prints");
            }
            else if (o.c == 'S' || o.c == 's' || o.c == 'X') {
                std::string a = out(slot(o.i)), b = out(slot(o.j)); apply(m, o);
                if (o.c == 'S') slot(o.i).swap(slot(o.j)); else if (o.c == 's') swap(slot(o.i), slot(o.j)); else std::swap(slot(o.i), slot(o.j));
                if (out(slot(o.i)) != b || out(slot(o.j)) != a) bad("swapping objects did not exchange them");
            }
            else {
                int id = m.s[o.i]; info[id].finish = o.c == 'F'; running = id;
                cur = m; cur.s[o.i] = EMPTY; apply(m, o);
                bool absent = pre.s[o.j] == ABSENT;
                if (o.c == 'W') {
                    auto f = [id](H && h) { if (running != id || !h) bad("a function ran on top of the wrong context"); return std::move(h); };
                    if (absent) new (store[o.j]) H(std::move(slot(o.i)).resume_with(f)); else slot(o.j) = std::move(slot(o.i)).resume_with(f);
                }
                else if (absent) new (store[o.j]) H(std::move(slot(o.i)).resume()); else slot(o.j) = std::move(slot(o.i)).resume();
            }
            running = -1;
            for (int c = 0; c < m.next; ++c) {
                bool l = m.live(c);
                if (l && (info[c].ended || info[c].frees)) bad("step %ld: context %ld was destroyed although an object denotes it", (long)n + 1, c);
                if (!l && (info[c].ended != info[c].started || info[c].started > 1)) bad("step %ld: context %ld was not unwound exactly once when its last object went away", (long)n + 1, c);
                // a finished context's memory may stay until the object that reported its end goes away
                bool fin = info[c].finish; if (!l && !fin && info[c].frees != 1) bad("step %ld: the stack of context %ld was released %ld times", (long)n + 1, c, info[c].frees);
                if (info[c].frees > 1) bad("step %ld: the stack of context %ld was released %ld times", (long)n + 1, c, info[c].frees);
            }
            compare(m, nullptr);
        }
        for (int i = 0; i < K; ++i) if (m.s[i] != ABSENT) { slot(i).~H(); }
        for (int c = 0; c < m.next; ++c) if (info[c].frees != 1 || info[c].ended != info[c].started) bad("after the last object was destroyed the stack of context %ld was released %ld times", c, info[c].frees);
    } catch (Fail const &) {}
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string esc(std::string const & s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c != '\n') r += c; } return r; }
static void dfs(Model const & m, std::vector<Op> & p, std::vector<std::vector<Op>> & runs) {
    if ((int)p.size() == LEN) { runs.push_back(p); return; }
    for (auto & o : ops(m)) { Model x = m; apply(x, o); p.push_back(o); dfs(x, p, runs); p.pop_back(); }
}
int main(int argc, char ** argv) {
    std::string mode = argc > 1 ? argv[1] : "graph", ps; double budget = 1e9; int workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    for (int i = 2; i + 1 < argc; i += 2) { std::string a = argv[i]; if (a == "-K") K = std::min(4, atoi(argv[i + 1])); else if (a == "--len") LEN = atoi(argv[i + 1]); else if (a == "--budget") budget = atof(argv[i + 1]); else if (a == "--path") ps = argv[i + 1]; }
    Shared * shs = (Shared *)mmap(0, sizeof(Shared) * 65, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<std::vector<Op>> runs; long states = 0, trans = 0;
    if (mode == "path") { runs.push_back(parse(ps.c_str())); workers = 1; }
    else if (mode == "graph") {
        std::set<std::string> seen; std::deque<std::pair<Model, std::vector<Op>>> q; q.push_back({init_model(), {}}); seen.insert(init_model().key());
        while (!q.empty()) {
            auto c = q.front(); q.pop_front(); ++states;
            for (auto & o : ops(c.first)) { ++trans; Model m = c.first; apply(m, o); auto p = c.second; p.push_back(o); if (seen.insert(m.key()).second) q.push_back({m, p});
                if (LEN > 4) { for (auto & o2 : ops(m)) { auto p2 = p; p2.push_back(o2); runs.push_back(p2); } } else runs.push_back(p); }
        }
    } else { std::vector<Op> p; dfs(init_model(), p, runs); states = trans = (long)runs.size(); }
    double until = now() + budget; long done = 0, checks = 0; bool capped = false; std::string viol; std::vector<Op> vp; std::vector<pid_t> pid(workers);
    for (int w = 0; w < workers; ++w) if (!(pid[w] = fork())) {
        sh = shs + w; long k = 0; alarm((unsigned)(budget > 1e6 ? 3600 : budget + 60));
        for (long i = w; i < (long)runs.size(); i += workers) { sh->idx = i; run_path(runs[i]); ++k; sh->done = k; if (sh->bad) _exit(1); if ((k & 63) == 0 && now() > until) _exit(3); }
        _exit(0);
    }
    for (int w = 0; w < workers; ++w) {
        int st; waitpid(pid[w], &st, 0); Shared & s = shs[w]; done += s.done; checks += s.checks;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) capped = true;
        else if (st) { if (!s.bad) snprintf(s.msg, sizeof s.msg, "the process ended with wait status %#x", st); if (viol.empty() || runs[s.idx].size() < vp.size()) { viol = s.msg; vp = runs[s.idx]; } }
    }
    if (!viol.empty()) { printf("{\"violation\":{\"message\":\"%s; operations: %s\",\"replay\":[\"path\",\"-K\",\"%d\",\"--path\",\"%s\"]}}\n", esc(viol).c_str(), show(vp).c_str(), K, show(vp).c_str()); return 1; }
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"states\":%ld,\"transitions\":%ld,\"object_checks\":%ld,\"capped\":%s,\"samples\":[\"%s\",\"%s\"]}\n", done, done, states, trans, checks, capped ? "true" : "false", show(runs[runs.size() / 2]).c_str(), show(runs.back()).c_str());
    return 0;
}
