#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

static uint64_t mix(uint64_t &s){ s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t hash_str(std::string const &s){ uint64_t h = 1469598103934665603ull; for(unsigned char c : s){ h ^= c; h *= 1099511628211ull; } return h; }

static void record_draw(Gen *g, uint32_t v);
uint32_t Gen::below(uint32_t bound){
    if (bound == 0) bound = 1;
    uint32_t v;
    if (replay) v = (pos < source.size()) ? std::min(source[pos], bound - 1) : 0;
    else v = static_cast<uint32_t>(mix(state) >> 16) % bound;
    pos++;
    tape.push_back(v);
    record_draw(this, v);
    return v;
}
int Gen::weighted(std::initializer_list<int> w){
    int t = 0; for(int x : w) t += x;
    int v = static_cast<int>(below(static_cast<uint32_t>(t)));
    int i = 0; for(int x : w){ if (v < x) return i; v -= x; i++; }
    return 0;
}

// ---- shared memory slots -------------------------------------------------------------------------------------------
static constexpr size_t max_tape = 1 << 16, max_text = 1 << 15;
struct Slot {
    std::atomic<int> state;      // 0 idle, 1 in a case, 2 violation reported, 3 finished
    std::atomic<long> serial;    // increases with each case
    int prop; long index;
    uint32_t ntape; uint32_t tape[max_tape];
    char msg[max_text]; char desc[max_text];
};
struct Shared {
    std::atomic<long> next; std::atomic<int> stop;
    std::atomic<long> done, weight;
};
static Slot *g_slot = nullptr;
static Gen *g_gen = nullptr;

static void record_draw(Gen *g, uint32_t v){ if (g_slot and g == g_gen and g_slot->ntape < max_tape) g_slot->tape[g_slot->ntape++] = v; }
static void put(char *dst, std::string const &s){ size_t n = std::min(s.size(), max_text - 1); std::memcpy(dst, s.data(), n); dst[n] = 0; }
static void save_tape(){
    if (g_slot == nullptr or g_gen == nullptr) return;
    g_slot->ntape = static_cast<uint32_t>(std::min(g_gen->tape.size(), max_tape));
    std::memcpy(g_slot->tape, g_gen->tape.data(), g_slot->ntape * sizeof(uint32_t));
}
void publish(Case const &c){ if (g_slot){ save_tape(); put(g_slot->desc, c.desc.str()); } }
void fail(std::string const &msg){
    if (g_slot){ save_tape(); put(g_slot->msg, msg); g_slot->state.store(2); }
    else std::fprintf(stderr, "failure: %s\n", msg.c_str());
    _exit(77);
}

template<typename T> static T* shared_alloc(size_t n){
    void *p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED){ std::perror("mmap"); std::exit(3); }
    return static_cast<T*>(p);
}
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double cpu_of(pid_t p){
    clockid_t c; timespec t;
    if (clock_getcpuclockid(p, &c) != 0 or clock_gettime(c, &t) != 0) return -1.0;
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static std::string tail_of(std::string const &file, size_t n = 6000){
    std::ifstream in(file, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
    if (s.size() > n) s = s.substr(0, n / 2) + "\n ... \n" + s.substr(s.size() - n / 2);
    return s;
}
static std::string json(std::string const &s){
    std::string r = "\"";
    for(unsigned char c : s){
        if (c == '"' or c == '\\'){ r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32 or c > 126){ char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; } else r += c;
    }
    return r + "\"";
}

struct Options {
    uint64_t seed = 1; double time = 60; int workers = 8; std::string out, work = "/tmp", replay, replay_out; bool thorough = false; double scale = 1.0; std::string only; long single = -1; double hang_cpu = 120, hang_wall = 400;
};

// runs one tape (or one seed) in a forked child; returns 0 passed, 1 failed, 2 hang
struct Attempt { int code; std::string msg, desc; std::vector<uint32_t> tape; };
static Attempt attempt(Options const &o, std::vector<Property> const &props, int prop, std::vector<uint32_t> const &tape, Slot *slot, double cpu_limit, int id = 0){
    slot->state = 0; slot->ntape = 0; slot->msg[0] = 0; slot->desc[0] = 0;
    std::string err = o.work + "/attempt." + std::to_string(getpid()) + "." + std::to_string(id) + ".err";
    std::fflush(nullptr);
    pid_t p = fork();
    if (p == 0){
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
        g_slot = slot; Gen g(tape); g_gen = &g; Case c;
        slot->state = 1;
        try { props[prop].body(g, c); } catch(std::exception &e){ publish(c); fail(std::string("uncaught exception: ") + e.what()); }
        publish(c);
        slot->state = 3; _exit(0);
    }
    double t0 = now(); int st = 0; Attempt a{0, "", "", {}};
    while(true){
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        double c = cpu_of(p);
        if (c > cpu_limit or now() - t0 > 3 * cpu_limit){ kill(p, SIGKILL); waitpid(p, &st, 0); a.code = 2; a.msg = "case exceeded the processor time limit"; break; }
        usleep(300);
    }
    a.tape.assign(slot->tape, slot->tape + slot->ntape); a.desc = slot->desc;
    if (a.code == 0){
        if (slot->state.load() == 2){ a.code = 1; a.msg = slot->msg; }
        else if (slot->state.load() == 3 and WIFEXITED(st) and WEXITSTATUS(st) == 0) a.code = 0;
        else { a.code = 1; a.msg = "process ended abnormally (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ")\n" + tail_of(err); if (slot->ntape == 0) a.tape = tape; }
    }
    unlink(err.c_str());
    return a;
}

static bool shorter(std::vector<uint32_t> const &a, std::vector<uint32_t> const &b){
    if (a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

static Attempt shrink(Options const &o, std::vector<Property> const &props, int prop, Attempt best, Slot *slot, double budget, double cpu_limit){
    double t0 = now(); bool improved = true; long tries = 0;
    auto try_tape = [&](std::vector<uint32_t> t)->bool{
        if (now() - t0 > budget) return false;
        tries++;
        Attempt a = attempt(o, props, prop, t, slot, cpu_limit);
        if (a.code != 1) return false;
        std::vector<uint32_t> got = a.tape.empty() ? t : a.tape;
        while(not got.empty() and got.back() == 0) got.pop_back();
        if (not shorter(got, best.tape)) return false;
        a.tape = got; best = a; return true;
    };
    while(not best.tape.empty() and best.tape.back() == 0) best.tape.pop_back();
    while(improved and now() - t0 < budget){
        improved = false;
        for(size_t len = std::max<size_t>(1, best.tape.size() / 2); len >= 1; len /= 2){ // delete blocks
            for(size_t i = 0; i + len <= best.tape.size(); ){
                if (now() - t0 > budget) break;
                std::vector<uint32_t> t = best.tape; t.erase(t.begin() + i, t.begin() + i + len);
                if (try_tape(t)) improved = true; else i += len;
            }
            if (len == 1) break;
        }
        for(size_t len = std::max<size_t>(1, best.tape.size() / 2); len >= 1; len /= 2){ // zero blocks
            for(size_t i = 0; i + len <= best.tape.size(); i += len){
                if (now() - t0 > budget) break;
                std::vector<uint32_t> t = best.tape; bool any = false;
                for(size_t k=i; k<i+len; k++){ if (t[k]) any = true; t[k] = 0; }
                if (any and try_tape(t)) improved = true;
            }
            if (len == 1) break;
        }
        for(size_t i = 0; i < best.tape.size(); i++){ // reduce values
            while(i < best.tape.size() and best.tape[i] > 0 and now() - t0 < budget){
                std::vector<uint32_t> t = best.tape; t[i] /= 2;
                if (try_tape(t)){ improved = true; continue; }
                t = best.tape; t[i] -= 1;
                if (try_tape(t)){ improved = true; continue; }
                break;
            }
        }
    }
    best.msg += "\n(shrunk in " + std::to_string(tries) + " attempts)";
    return best;
}

static void write_replay(std::string const &file, std::string const &prop, Attempt const &a, uint64_t seed){
    std::ofstream f(file);
    f << "prop " << prop << "\nseed " << seed << "\ntape " << a.tape.size();
    for(auto v : a.tape) f << ' ' << v;
    f << "\n--- case\n" << a.desc << "\n--- failure\n" << a.msg << "\n";
}

int run(int argc, char **argv, std::vector<Property> const &all_props){
    Options o;
    for(int i=1; i<argc; i++){
        std::string a = argv[i]; auto val = [&]{ return std::string(i+1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = std::stoull(val()); else if (a == "--time") o.time = std::stod(val()); else if (a == "--workers") o.workers = std::stoi(val());
        else if (a == "--out") o.out = val(); else if (a == "--work") o.work = val(); else if (a == "--replay") o.replay = val(); else if (a == "--replay-out") o.replay_out = val();
        else if (a == "--tier") o.thorough = (val() == "thorough"); else if (a == "--scale") o.scale = std::stod(val()); else if (a == "--only") o.only = val(); else if (a == "--index") o.single = std::stol(val());
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    std::vector<Property> props;
    for(auto const &p : all_props) if (o.only.empty() or p.name == o.only) props.push_back(p);
    Slot *slots = shared_alloc<Slot>(o.workers + 1);
    Slot *aux = slots + o.workers;
    if (not o.replay.empty()){
        std::ifstream f(o.replay); std::string w, name; size_t n = 0; std::vector<uint32_t> t;
        while(f >> w){ if (w == "prop") f >> name; else if (w == "seed"){ uint64_t s; f >> s; } else if (w == "tape"){ f >> n; t.resize(n); for(auto &v : t) f >> v; break; } }
        for(size_t p=0; p<props.size(); p++) if (props[p].name == name){
            Attempt a = attempt(o, props, static_cast<int>(p), t, aux, o.hang_cpu);
            std::printf("%s\n--- case\n%s\n--- failure\n%s\n", a.code == 0 ? "PASSED" : "FAILED", a.desc.c_str(), a.msg.c_str());
            return a.code == 0 ? 0 : 1;
        }
        std::printf("no sub-property named %s\n", name.c_str()); return 3;
    }
    Shared *sh = shared_alloc<Shared>(1);
    // interleave the cases of all sub-properties in proportion to their counts
    std::vector<long> count, offset; long total = 0;
    for(auto const &p : props){ long n = std::max(1L, static_cast<long>((o.thorough ? p.thorough : p.quick) * o.scale)); if ((o.thorough ? p.thorough : p.quick) == 0) n = 0; offset.push_back(total); count.push_back(n); total += n; }
    std::vector<std::pair<double, std::pair<int,long>>> order; order.reserve(total);
    for(size_t p=0; p<props.size(); p++) for(long k=0; k<count[p]; k++) order.push_back({(k + 0.5) / count[p], {static_cast<int>(p), k}});
    std::stable_sort(order.begin(), order.end(), [](std::pair<double,std::pair<int,long>> const &a, std::pair<double,std::pair<int,long>> const &b){ return a.first < b.first; });
    uint64_t *prints = shared_alloc<uint64_t>(static_cast<size_t>(total) + 1);
    std::atomic<long> *executed = shared_alloc<std::atomic<long>>(props.size() + 1);

    double t0 = now();
    auto seed_of = [&](int p, long k)->uint64_t{ uint64_t s = o.seed * 0x9E3779B97F4A7C15ull ^ hash_str(props[p].name) ^ (static_cast<uint64_t>(k) * 0xD6E8FEB86659FD93ull); mix(s); return s; };
    auto worker = [&](int w){
        std::string err = o.work + "/worker." + std::to_string(getppid()) + "." + std::to_string(w) + ".err";
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
        Slot *s = slots + w; g_slot = s;
        std::map<std::string, long> labels; std::vector<std::string> samples; std::map<int,int> sampled;
        while(not sh->stop.load() and now() - t0 < o.time){
            long i = sh->next.fetch_add(1); if (i >= total) break;
            int p = order[i].second.first; long k = order[i].second.second;
            if (o.single >= 0 and k != o.single) continue;
            Gen g(seed_of(p, k)); g_gen = &g; Case c;
            s->prop = p; s->index = k; s->ntape = 0; s->desc[0] = 0; s->msg[0] = 0; s->serial++; s->state = 1;
            if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
            try { props[p].body(g, c); } catch(std::exception &e){ publish(c); fail(std::string("uncaught exception: ") + e.what()); }
            s->state = 0;
            executed[p]++; sh->done++; sh->weight += c.weight;
            for(auto const &l : c.labels) labels[l]++;
            if (c.nontrivial){
                uint64_t h = hash_str(c.desc.str()) ^ hash_str(props[p].name); if (h == 0) h = 1; prints[offset[p] + k] = h;
                if (sampled[p] < 1){ sampled[p]++; samples.push_back(props[p].name + ": " + c.desc.str()); }
            }
            g_gen = nullptr;
        }
        std::ofstream f(o.work + "/worker." + std::to_string(getppid()) + "." + std::to_string(w) + ".stat");
        for(auto const &l : labels) f << "L\t" << l.second << '\t' << l.first << '\n';
        for(auto s2 : samples){ for(auto &ch : s2) if (ch == '\n' or ch == '\t') ch = ' '; f << "S\t1\t" << s2.substr(0, 1200) << '\n'; }
        f.close();
        s->state = 3; _exit(0);
    };
    std::vector<pid_t> pid(o.workers); std::vector<long> last_serial(o.workers, -1); std::vector<double> cpu0(o.workers, 0), wall0(o.workers, 0);
    std::fflush(nullptr);
    for(int w=0; w<o.workers; w++){ pid[w] = fork(); if (pid[w] == 0) worker(w); wall0[w] = now(); }
    int live = o.workers; int failed_worker = -1; bool hang = false; std::string inconclusive;
    std::vector<std::string> errfile(o.workers);
    while(live > 0){
        bool any = false;
        for(int w=0; w<o.workers; w++) if (pid[w] > 0){
            int st = 0; pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r == pid[w]){
                any = true; pid[w] = 0; live--;
                if (slots[w].state.load() != 3 or not WIFEXITED(st) or WEXITSTATUS(st) != 0){
                    if (slots[w].state.load() != 2){
                        std::string e = tail_of(o.work + "/worker." + std::to_string(getpid()) + "." + std::to_string(w) + ".err");
                        put(slots[w].msg, "process ended abnormally (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ")\n" + e);
                    }
                    if (failed_worker < 0 or slots[w].index < slots[failed_worker].index) failed_worker = w;
                    sh->stop = 1;
                }
            }else{
                long ser = slots[w].serial.load();
                double c = cpu_of(pid[w]);
                if (ser != last_serial[w]){ last_serial[w] = ser; cpu0[w] = c; wall0[w] = now(); }
                else if (slots[w].state.load() == 1 and (c - cpu0[w] > o.hang_cpu or now() - wall0[w] > o.hang_wall)){
                    kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; live--; any = true; sh->stop = 1;
                    put(slots[w].msg, "case did not end within " + std::to_string(o.hang_cpu) + " s of processor time");
                    if (failed_worker < 0){ failed_worker = w; hang = true; }
                }
            }
        }
        if (not any) usleep(5000);
    }
    double explored_s = now() - t0;
    int code = 0; std::string message, describe, failprop;
    if (failed_worker >= 0){
        Slot &s = slots[failed_worker]; int p = s.prop;
        Attempt a{1, s.msg, s.desc, std::vector<uint32_t>(s.tape, s.tape + s.ntape)};
        double limit = hang ? o.hang_cpu : std::min(o.hang_cpu, 60.0);
        auto reproduces = [&](std::vector<uint32_t> const &t)->int{
            int n = 0; for(int i=0; i<3; i++){ Attempt b = attempt(o, props, p, t, aux, limit); if (b.code == 1 or (hang and b.code == 2)){ n++; if (a.code == 1 and b.code == 1){ a.msg = b.msg; a.desc = b.desc; } } else break; } return n;
        };
        if (reproduces(a.tape) == 3){
            if (not hang){ Attempt b = shrink(o, props, p, a, aux, o.thorough ? 120 : 40, limit); std::vector<uint32_t> keep = b.tape; if (reproduces(keep) == 3) a = b; }
            code = 1;
        }else{
            inconclusive = "a failure of case " + props[p].name + "#" + std::to_string(s.index) + " did not reproduce three times: " + a.msg;
        }
        message = a.msg; describe = a.desc; failprop = props[p].name;
        if (code == 1){ if (not o.replay_out.empty()) write_replay(o.replay_out, props[p].name, a, o.seed); }
    }
    // statistics
    std::map<std::string, long> labels; std::vector<std::string> samples;
    for(int w=0; w<o.workers; w++){
        std::string base = o.work + "/worker." + std::to_string(getpid()) + "." + std::to_string(w);
        std::ifstream f(base + ".stat"); std::string line;
        while(std::getline(f, line)){
            size_t t1 = line.find('\t'), t2 = line.find('\t', t1 + 1); if (t2 == std::string::npos) continue;
            if (line[0] == 'L') labels[line.substr(t2 + 1)] += std::stol(line.substr(t1 + 1, t2 - t1 - 1)); else samples.push_back(line.substr(t2 + 1));
        }
        f.close(); unlink((base + ".stat").c_str()); unlink((base + ".err").c_str());
    }
    std::set<uint64_t> distinct; for(long i=0; i<total; i++) if (prints[i]) distinct.insert(prints[i]);
    std::sort(samples.begin(), samples.end()); // keep a few of each sub-property
    std::map<std::string,int> per; std::vector<std::string> keep;
    for(auto const &s : samples){ std::string n = s.substr(0, s.find(':')); if (per[n]++ < 2) keep.push_back(s); }
    std::ostringstream js;
    js << "{\"planned\":" << total << ",\"cases\":" << sh->done.load() << ",\"evaluations\":" << sh->weight.load() << ",\"distinct_nontrivial\":" << distinct.size() << ",\"seconds\":" << explored_s << ",\"per_property\":{";
    for(size_t p=0; p<props.size(); p++) js << (p ? "," : "") << json(props[p].name) << ":" << executed[p].load();
    js << "},\"labels\":{"; bool first = true; for(auto const &l : labels){ js << (first ? "" : ",") << json(l.first) << ":" << l.second; first = false; }
    js << "},\"samples\":["; first = true; for(auto const &s : keep){ js << (first ? "" : ",") << json(s); first = false; }
    js << "],\"violation\":" << code << ",\"message\":" << json(message) << ",\"case\":" << json(describe) << ",\"failed_property\":" << json(failprop) << ",\"inconclusive\":" << json(inconclusive) << "}";
    if (o.out.empty()) std::printf("%s\n", js.str().c_str()); else { std::ofstream f(o.out); f << js.str() << "\n"; }
    return code;
}
}
