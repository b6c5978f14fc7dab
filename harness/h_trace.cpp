// C20: tracing is transparent and its log is well formed.
#include <dirent.h>
#include <fstream>
#include <unistd.h>
#include "tcall.h"
#include "trace_shim.h"
using pbt::Gen; using pbt::Case; using pbt::fail;

std::unique_ptr<Plan> make_plan(PlanSpec const &s){ return s.backend == STOCK ? make_plan_stock(s) : (s.backend == FFTW ? make_plan_fftw(s) : make_plan_mkl(s)); }
static void sim_failed(std::string const &m){ fail("MPI protocol: " + m); }

struct Line { std::string name; double start, duration; };
//! Reads the log of one process and removes it.
static std::vector<Line> read_log(std::string const &dir, std::string const &root, int rank, bool *found){
    std::vector<std::string> files; std::string prefix = root + "_" + std::to_string(rank) + ".";
    DIR *d = opendir(dir.c_str()); if (d){ while(dirent *e = readdir(d)) if (std::string(e->d_name).compare(0, prefix.size(), prefix) == 0) files.push_back(e->d_name); closedir(d); }
    std::vector<Line> r; *found = (files.size() == 1); if (files.size() > 1) fail("several log files for one process");
    if (not *found) return r;
    std::ifstream f(dir + "/" + files[0]); std::string l;
    while(std::getline(f, l)){
        std::vector<std::string> tok; std::istringstream is(l); std::string w; while(is >> w) tok.push_back(w);
        if (tok.size() < 3) fail("log line without name, start and duration: '" + l + "'");
        Line x; char *e1, *e2; x.start = std::strtod(tok[tok.size()-2].c_str(), &e1); x.duration = std::strtod(tok.back().c_str(), &e2);
        if (*e1 or *e2 or x.start != x.start or x.duration != x.duration) fail("start or duration is not a number: '" + l + "'");
        for(size_t i=0; i+2<tok.size(); i++) x.name += (i ? " " : "") + tok[i];
        r.push_back(x);
    }
    unlink((dir + "/" + files[0]).c_str());
    return r;
}
static bool starts(std::string const &s, char const *p){ return s.compare(0, std::strlen(p), p) == 0; }

struct Interval { double begin, end; size_t op_begin, op_end; int transforms = 0, scaled = 0; };
static void check_log(std::vector<Line> log, Interval const &iv, std::vector<simmpi::Op> const &ops, int rank){
    std::string who = " in the log of rank " + std::to_string(rank);
    double const slack = 3e-7; // the file holds 12 digits
    for(auto const &l : log){
        if (l.duration < 0) fail("negative duration of '" + l.name + "'" + who);
        if (l.start < iv.begin - slack or l.start + l.duration > iv.end + slack){ std::ostringstream o; o.precision(12); o << "event '" << l.name << "' at " << l.start << " for " << l.duration << " is outside of the traced interval (" << iv.begin << "," << iv.end << ")" << who; fail(o.str()); }
        if (l.name.empty()) fail("event without a name" + who);
    }
    std::stable_sort(log.begin(), log.end(), [](Line const &a, Line const &b){ return a.start < b.start; });
    // the communication calls that were made against the communication lines
    std::vector<Line> comm; long pack = 0, unpack = 0, self_pack = 0, self_unpack = 0, scale = 0, fft = 0; std::vector<Line> reshapes;
    for(auto const &l : log){
        if (starts(l.name, "all2all") or starts(l.name, "irecv ") or starts(l.name, "isend ") or starts(l.name, "send ") or l.name == "waitany") comm.push_back(l);
        else if (starts(l.name, "packing")) pack++; else if (starts(l.name, "unpacking")) unpack++;
        else if (starts(l.name, "self packing")) self_pack++; else if (starts(l.name, "self unpacking")) self_unpack++;
        else if (l.name == "scale") scale++; else if (starts(l.name, "fft")) fft++;
        if (starts(l.name, "reshape")) reshapes.push_back(l);
    }
    size_t n = iv.op_end - iv.op_begin; long want_pack = 0, want_unpack = 0;
    if (comm.size() != n) fail(std::to_string(comm.size()) + " communication lines for " + std::to_string(n) + " communication calls" + who);
    for(size_t i=0; i<n; i++){
        simmpi::Op const &o = ops[iv.op_begin + i]; std::string expect = o.fn;
        if (o.fn == "irecv") expect += " " + std::to_string(o.count) + " from " + std::to_string(o.peer);
        if (o.fn == "send" or o.fn == "isend") expect += " " + std::to_string(o.count) + " for " + std::to_string(o.peer);
        if (comm[i].name != expect) fail("communication call '" + expect + "' is logged as '" + comm[i].name + "'" + who);
        if (o.time < comm[i].start - slack or o.time > comm[i].start + comm[i].duration + slack){ std::ostringstream s; s.precision(12); s << "'" << expect << "' was called at " << o.time << " and is logged from " << comm[i].start << " for " << comm[i].duration << who; fail(s.str()); }
        bool inside = false; for(auto const &r : reshapes) if (o.time > r.start - slack and o.time < r.start + r.duration + slack) inside = true;
        if (not inside) fail("'" + expect + "' happened outside of every logged reshape" + who);
        if (starts(o.fn, "all2all")){ want_pack++; want_unpack++; } else if (o.fn == "irecv") want_unpack++; else if (o.fn != "waitany") want_pack++;
    }
    if (pack != want_pack or unpack != want_unpack) fail(std::to_string(pack) + " packing and " + std::to_string(unpack) + " unpacking lines, expected " + std::to_string(want_pack) + " and " + std::to_string(want_unpack) + who);
    if (self_pack != self_unpack) fail("self packing and self unpacking do not match" + who);
    if (scale != iv.scaled) fail(std::to_string(scale) + " scale lines for " + std::to_string(iv.scaled) + " scaled transforms" + who);
    if (fft < iv.transforms) fail(std::to_string(fft) + " fft lines for " + std::to_string(iv.transforms) + " transforms" + who);
}

static std::string workdir;
// operations of a history: 0 transform (index), 1 initialise, 2 finalise
struct Step { int what, call; };
static void c20(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 400;
    Problem p = gen_problem(g, go);
    int nc = g.range(1, 4); std::vector<TCall> calls; for(int i=0; i<nc; i++) calls.push_back(gen_call(g, p));
    // per process: where tracing starts and stops (most of the time the same everywhere)
    std::vector<std::vector<Step>> steps(p.nranks); bool same = g.chance(2, 3);
    for(int r=0; r<p.nranks; r++){
        if (r > 0 and same){ steps[r] = steps[0]; continue; }
        bool on = false;
        for(int i=0; i<nc; i++){
            int k = g.weighted({2, 3, 1}); // nothing, (re)initialise or finalise, start over without finalising
            if (k == 1){ if (on) steps[r].push_back({2, 0}); if (not on or g.chance(1, 2)) steps[r].push_back({1, 0}); on = (steps[r].back().what == 1); }
            else if (k == 2){ steps[r].push_back({1, 0}); on = true; }
            steps[r].push_back({0, i});
        }
        if (on) steps[r].push_back({2, 0});
    }
    simmpi::clock_base = g.pick({0.0, 17.25, 4000.5, 98765.4321});
    c.desc << p.str() << " clock=" << simmpi::clock_base; for(auto const &t : calls) c.desc << " " << t.str(); c.desc << " history=";
    for(int r=0; r<(same ? 1 : p.nranks); r++){ for(auto const &s : steps[r]) c.desc << (s.what == 0 ? std::to_string(s.call) : (s.what == 1 ? "I" : "F")); c.desc << ";"; }
    label_problem(c, p); if (not same) c.label("different-histories"); pbt::publish(c); for(auto &t : calls) prepare(t, p);

    simmpi::failure_handler = sim_failed;
    std::string root = "t" + std::to_string(getpid()) + "x"; bool traced_any = false, reinit = false;
    std::vector<std::vector<std::vector<char>>> res[2]; std::vector<std::vector<long>> ncalls[2];
    std::vector<char> refused[2];
    for(int w=0; w<2; w++){
        res[w].assign(nc, std::vector<std::vector<char>>(p.nranks)); ncalls[w].assign(nc, std::vector<long>(p.nranks, 0)); refused[w].assign(p.nranks, 0);
        traced_reset(p.nranks); simmpi::switch_hook = (w == 1) ? traced_switch : nullptr; simmpi::record_ops(w == 1);
        simmpi::run(p.nranks, p.sched, [&](int r){
            std::unique_ptr<Plan> plan; try { plan = w ? make_traced_plan(p.spec(r)) : make_plan(p.spec(r)); } catch(std::runtime_error &){ refused[w][r] = 1; return; }
            Interval iv; bool on = false; int count = 0; std::string name;
            for(auto const &s : steps[r]){
                if (s.what == 0){
                    long before = simmpi::my_calls();
                    res[w][s.call][r] = execute(calls[s.call], p, *plan, r, w ? "traced transform" : "transform");
                    ncalls[w][s.call][r] = simmpi::my_calls() - before; iv.transforms++; if (calls[s.call].c.scale != 0) iv.scaled++;
                }else if (s.what == 1){
                    name = root + std::to_string(count++);
                    if (w == 0){ untraced_init(workdir + "/" + name); continue; }
                    if (count > 1) reinit = true; traced_any = true;
                    iv = Interval(); iv.begin = MPI_Wtime(); iv.op_begin = simmpi::ops().size(); traced_init(workdir + "/" + name); on = true;
                }else{
                    if (w == 0){ untraced_finalize(); continue; }
                    traced_finalize(); iv.end = MPI_Wtime(); iv.op_end = simmpi::ops().size(); on = false;
                    bool found; std::vector<Line> log = read_log(workdir, name, r, &found);
                    if (not found) fail("no log file was written for rank " + std::to_string(r));
                    check_log(log, iv, simmpi::ops(), r);
                }
            }
            (void) on;
        });
    }
    simmpi::switch_hook = nullptr; traced_reset(0); simmpi::record_ops(false);
    if (refused[0] != refused[1]) fail("the traced build refuses different problems");
    for(int i=0; i<nc; i++) for(int r=0; r<p.nranks; r++) if (not refused[0][r]){
        if (ncalls[0][i][r] != ncalls[1][i][r]) fail("the traced transform makes a different number of MPI calls");
        if (p.backend != MKL and res[0][i][r] != res[1][i][r]) fail("the traced transform gives a different result on rank " + std::to_string(r));
    }
    if (traced_any) c.label("traced"); if (reinit) c.label("initialised-twice");
    c.weight = 2 * nc; c.nontrivial = traced_any and p.n[0] * p.n[1] * p.n[2] > 1;
}
int main(int argc, char **argv){
    workdir = "."; for(int i=1; i+1<argc; i++) if (std::string(argv[i]) == "--work") workdir = argv[i+1];
    return pbt::run(argc, argv, {{"c20", c20, 10000, 150000}});
}
