// A small property-based testing engine: choice tape generation, forked workers, tape shrinking, replay files.
#ifndef PBT_H
#define PBT_H
#include <array>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

//! Source of all random choices of one case: every draw is recorded so the case can be shrunk and replayed.
class Gen {
public:
    explicit Gen(uint64_t seed) : state(seed), replay(false) {}
    explicit Gen(std::vector<uint32_t> t) : state(0), replay(true), source(std::move(t)) {}
    //! Uniform integer in [0, bound); 0 is the simplest choice.
    uint32_t below(uint32_t bound);
    int range(int lo, int hi){ return (hi <= lo) ? lo : lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
    //! True with probability num/den; false is the simplest choice.
    bool chance(uint32_t num, uint32_t den){ return below(den) >= den - num; }
    template<typename T> T pick(std::initializer_list<T> l){ return *(l.begin() + below(static_cast<uint32_t>(l.size()))); }
    template<typename T> T const& pick(std::vector<T> const &l){ return l[below(static_cast<uint32_t>(l.size()))]; }
    //! Index with the given integer weights.
    int weighted(std::initializer_list<int> w);
    uint64_t seed64(){ uint64_t a = below(0x10000); return a * 0x9E3779B97F4A7C15ull + 1; }
    std::vector<uint32_t> tape; // what was drawn
private:
    uint64_t state; bool replay; std::vector<uint32_t> source; size_t pos = 0;
};

//! Description and classification of one case.
struct Case {
    std::ostringstream desc;
    bool nontrivial = false;
    void label(std::string const &s){ labels.push_back(s); }
    std::vector<std::string> labels;
    long weight = 1; // how many evaluations the case stands for
};

//! Reports a violation from any thread and ends the process.
[[noreturn]] void fail(std::string const &msg);
//! Publishes the description so far, so a crash can be described (called by the property after generation).
void publish(Case const &c);

struct Property {
    std::string name;
    std::function<void(Gen&, Case&)> body;
    long quick, thorough;      // number of cases in the two tiers
};

int run(int argc, char **argv, std::vector<Property> const &props);

inline std::string str(std::vector<int> const &a){ std::string s = "("; for(size_t i=0; i<a.size(); i++) s += (i ? "," : "") + std::to_string(a[i]); return s + ")"; }
inline std::string str(std::array<int,3> const &a){ return "(" + std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]) + ")"; }

}
#endif
